import json,sys,glob,os
H=os.path.dirname(os.path.abspath(__file__))+'/..'
for a in sys.argv[1:]:
    e=json.load(open(f'{H}/evidence/{a}.json'))
    print(a,'wall',e['wall_s'],'build',e['coverage']['build_wall_s'],'not built',list(e['coverage']['not_built']))
    for c,x in e['coverage']['configurations'].items():
        print('  ',c,x['evaluations'],x['distinct_nontrivial'],round(x['wall_s'],1),x['per_sub_property'],x['classes'],x['notes'])
