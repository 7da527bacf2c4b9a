#!/usr/bin/env python3
"""run.py ID                 decide property ID on /repo's working tree
   run.py ID --replay FILE   re-run a saved failing case
   run.py --setup            check that the needed tools are there

Tier and seed come from VERIF_TIER (quick, thorough) and VERIF_SEED.
Exit 0: held on everything explored, 1: VIOLATION line printed, 2: the check itself could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks  # noqa: E402

try:
    SEED = abs(int(os.environ.get("VERIF_SEED", "1")))
except ValueError:
    SEED = 1

UBSAN = ("-fsanitize=undefined -fno-sanitize=nonnull-attribute,returns-nonnull-attribute,vptr "
         "-fno-sanitize-recover=all").split()
COMMON = ["-g1", "-w", "-fno-omit-frame-pointer", "-pthread"]

CONFIGS = {
    # debug asserts of the code under test are on
    "dbg17": dict(cxx="g++", std="c++17", flags=["-O1", "-DDEBUG", "-fsanitize=address"] + UBSAN, eng=["-DPBT_ASAN"],
                  cmd="run"),
    # as users build it: optimised, no sanitizers, no asserts
    "rel20": dict(cxx="g++", std="c++20", flags=["-O2"], eng=[], cmd="run"),
    # debug asserts without sanitizers
    "dbg20": dict(cxx="g++", std="c++20", flags=["-O2", "-DDEBUG"], eng=[], cmd="run"),
    "rel17": dict(cxx="g++", std="c++17", flags=["-O3"], eng=[], cmd="run"),
    # coverage guided
    "fuzz17": dict(cxx="clang++", std="c++17",
                   flags=["-O1", "-fsanitize=address,fuzzer-no-link"] + UBSAN + ["-fno-sanitize=function"],
                   eng=["-DPBT_ASAN", "-DPBT_FUZZ"], cmd="fuzz"),
    # data races
    "tsan17": dict(cxx="clang++", std="c++17", flags=["-O1", "-fsanitize=thread"], eng=["-DPBT_TSAN"], cmd="run"),
    "tsan20": dict(cxx="g++", std="c++20", flags=["-O2", "-DDEBUG", "-fsanitize=thread"], eng=["-DPBT_TSAN"],
                   cmd="run"),
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS", "MSAN_OPTIONS", "CPATH",
                      "CPLUS_INCLUDE_PATH", "LD_PRELOAD", "LOCPATH")}
    e["LC_ALL"] = "C.UTF-8"
    e["TMPDIR"] = e.get("TMPDIR", "/tmp")
    return e


def run(cmd, locpath=None, **kw):
    e = env()
    if locpath and os.path.isdir(locpath):
        e["LOCPATH"] = locpath
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def compile_one(args):
    cmd, what = args
    for attempt in range(2):
        r = run(cmd)
        if r.returncode == 0:
            return None
    return "%s: %s\n%s" % (what, " ".join(cmd), r.stdout[:30000])


def make_locale(work):
    """A locale with decimal comma. Where it cannot be made, the harness goes without it and the evidence shows it."""
    os.makedirs(work + "/locale", exist_ok=True)
    r = run(["localedef", "-i", "de_DE", "-f", "UTF-8", work + "/locale/de_DE.UTF-8"])
    if not os.path.exists(work + "/locale/de_DE.UTF-8/LC_NUMERIC"):
        log("localedef: " + r.stdout)
        shutil.rmtree(work + "/locale", ignore_errors=True)


def build(spec, configs, work):
    """Builds one binary per configuration. Returns {config: binary}, {config: error}."""
    if spec.get("locale"):
        make_locale(work)
    srcs = sorted(glob.glob(REPO + "/src/utki/**/*.cpp", recursive=True))
    inc = ["-I" + REPO + "/src", "-isystem", REPO + "/src_deps", "-I" + HERE + "/engine", "-I" + HERE + "/harness"]
    jobs = []
    objs = {c: [] for c in configs}
    for c in configs:
        cfg = CONFIGS[c]
        d = work + "/" + c
        os.makedirs(d)
        base = [cfg["cxx"], "-std=" + cfg["std"]] + COMMON + inc
        # the harness is the slowest, so it goes first
        o = d + "/harness.o"
        jobs.append((c, (base + cfg["flags"] + spec["flags"] + ["-DPBT_CONFIG_" + c, "-DVERIF_SEED=%d" % (SEED % 1000000007),
                                                           '-DVERIF_REPO_SRC="%s/src"' % REPO, '-DVERIF_HERE="%s"' % HERE, "-c", HERE + "/harness/" + spec["src"], "-o", o],
                         c + " harness")))
        objs[c].append(o)
    for c in configs:
        cfg = CONFIGS[c]
        d = work + "/" + c
        base = [cfg["cxx"], "-std=" + cfg["std"]] + COMMON + inc
        o = d + "/engine.o"
        jobs.append((c, (["g++", "-std=c++17", "-O1"] + COMMON + inc + cfg["eng"] + spec.get("engine_flags", []) +
                         ["-c", HERE + "/engine/engine.cpp", "-o", o], c + " engine")))
        objs[c].append(o)
        if spec.get("lib", True):
            for i, s in enumerate(srcs):
                o = "%s/lib%d.o" % (d, i)
                jobs.append((c, (base + cfg["flags"] + spec.get("lib_flags", []) + ["-c", s, "-o", o], c + " " + s)))
                objs[c].append(o)
    errors = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for (c, (_, what)), err in zip(jobs, ex.map(compile_one, [j[1] for j in jobs])):
            if err and (c not in errors or not what.endswith(" harness")):
                errors[c] = err  # a broken library or engine matters more than a broken harness
    bins = {}

    def link(c):
        cfg = CONFIGS[c]
        b = work + "/" + c + "/bin"
        cmd = [cfg["cxx"], "-std=" + cfg["std"]] + COMMON + cfg["flags"] + objs[c] + ["-o", b] + spec["ldflags"]
        if cfg["cmd"] == "fuzz":
            a = run(["clang++", "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"]).stdout.strip()
            cmd += [a]
        cmd += ["-ldl"]
        err = compile_one((cmd, c + " link"))
        return b, err

    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        todo = [c for c in configs if c not in errors]
        for c, (b, err) in zip(todo, ex.map(link, todo)):
            if err:
                errors[c] = err
            else:
                bins[c] = b
    return bins, errors


def run_probes(pid, spec, work, replay_dir, tier):
    """Generated programs which have to compile (and whose compile-time results are checked by static_assert).

    A probe is a C++ source under harness/; it is compiled per listed standard and compiler. It fails only if a control
    program, which is the same with PROBE_CONTROL defined and does not use the code under test, compiles."""
    out = []
    jobs = []
    inc = ["-I" + REPO + "/src", "-isystem", REPO + "/src_deps", "-I" + HERE + "/engine", "-I" + HERE + "/harness"]
    for i, (src, cxx, std) in enumerate(spec.get("probes", [])):
        n = spec.get("probe_variants", {}).get(tier, 1)
        for k in range(n):
            seed = SEED * 100003 % 1000000007 + k
            base = [cxx, "-std=" + std, "-w", "-fsyntax-only", "-fconstexpr-ops-limit=10000000"
                    if cxx == "g++" else "-fconstexpr-steps=3000000", "-DVERIF_SEED=%d" % seed] + inc
            jobs.append((src, base, HERE + "/harness/" + src))

    def one(j):
        src, base, path = j
        err = compile_one((base + [path], src))
        if err and rejected(err) and compile_one((base + ["-DPROBE_CONTROL", path], src)) is None:
            return err
        return None

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for j, err in zip(jobs, ex.map(one, jobs)):
            if err and not out:
                rp = "%s/%s-probe-%s-%d.case" % (replay_dir, pid, tier, SEED)
                with open(rp, "w") as f:
                    f.write("# property %s: program which has to compile does not\n# replay: %s\n" %
                            (pid, " ".join(j[1] + [j[2]])))
                    f.write("".join("# " + x + "\n" for x in err.splitlines()[:40]))
                out.append(("probe", dict(message="program does not compile: " + err[:600], replay=rp)))
    return len(jobs), out


def rejected(e):
    """Did the compiler reject the program, rather than fail itself."""
    return ": error: " in e and not any(x in e for x in (
        "Killed", "terminated", "No space left", "internal compiler error", "annot allocate", "out of memory",
        "virtual memory exhausted", "No such file or directory", "PLEASE submit a bug report"))


def interface_broken(pid, spec, errors, tier, replay_dir):
    """The harness is a program which uses only the public interface. When just it does not compile, while the library
    itself and the engine do, programs of users do not compile either, and the property is lost for them."""
    for c, e in errors.items():
        if e.startswith(c + " harness: ") and rejected(e):
            rp = "%s/%s-%s-%s-%d.case" % (replay_dir, pid, c, tier, SEED)
            with open(rp, "w") as f:
                f.write("# property %s: program which uses the interface does not compile\n" % pid)
                f.write("# replay: python3 /verif/run.py %s --replay %s\nconfig %s\ncompile\n" % (pid, rp, c))
                f.write("".join("# " + x + "\n" for x in e.splitlines()[:40]))
            return [(c, dict(message="program which uses the interface does not compile: " + e[:1500], replay=rp))]
    return []


def spec_of(pid):
    s = dict(checks.DEFAULT)
    for k, v in checks.CHECKS[pid].items():
        s[k] = {**s[k], **v} if isinstance(v, dict) and k in s else v
    return s


def explore(pid, spec, cfgname, binary, tier, seed, work, replay_dir):
    out = work + "/" + cfgname + "/out.json"
    rp = "%s/%s-%s-%s-%d.case" % (replay_dir, pid, cfgname, tier, seed)
    cases = spec["cases"].get(cfgname, spec["cases"]["dbg17"])
    if tier == "thorough":
        cases *= spec["deep"]
    salt = int(hashlib.sha256((pid + cfgname).encode()).hexdigest()[:8], 16)
    d = work + "/" + cfgname + "/work"
    os.makedirs(d)
    cmd = [binary, CONFIGS[cfgname]["cmd"], "--seed", str(seed * 1000003 + salt), "--workers",
           str(spec["workers"].get(cfgname, 2)), "--cases", str(cases), "--time", str(spec["time"][tier]), "--work", d,
           "--out", out, "--replay-out", rp, "--shrink-time", "20" if tier == "quick" else "60"]
    p = run(cmd, cwd=d, locpath=work + "/locale")
    if p.returncode not in (0, 1) or not os.path.exists(out):
        return cfgname, None, "%s exited with %d: %s" % (" ".join(cmd), p.returncode, p.stdout[-2000:])
    with open(out) as f:
        r = json.load(f)
    if r["failed"]:
        with open(rp) as f:
            body = f.read()
        with open(rp, "w") as f:
            f.write("# property %s, configuration %s\n# replay: python3 /verif/run.py %s --replay %s\nconfig %s\n" %
                    (pid, cfgname, pid, rp, cfgname) + body)
        r["replay"] = rp
    return cfgname, r, None


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = SEED
    spec = spec_of(pid)
    replay_dir = HERE + "/replay"
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/build", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=HERE + "/build")
    try:
        bins, errors = build(spec, spec["configs"], work)
        for c, e in errors.items():
            log("build of configuration %s failed: %s" % (c, e))
        interface = interface_broken(pid, spec, errors, tier, replay_dir)
        if not bins and not spec.get("probes") and not interface:
            log("nothing could be built")
            return 2
        t_build = time.time() - t0
        results = {}
        run_errors = {}
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fs = [ex.submit(explore, pid, spec, c, b, tier, seed, work, replay_dir) for c, b in bins.items()]
            for f in cf.as_completed(fs):
                c, r, err = f.result()
                if err:
                    run_errors[c] = err
                    log(err)
                else:
                    results[c] = r
        n_probes, violations = 0, []
        if not any(r["failed"] for r in results.values()):
            n_probes, violations = run_probes(pid, spec, work, replay_dir, tier)
        violations = interface + violations
        for c in spec["configs"]:
            r = results.get(c)
            if r and r["failed"]:
                violations.append((c, r))
        cov = dict(
            evaluations=sum(r["evaluations"] for r in results.values()),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results.values()),
            rule="Each case is generated from a recorded sequence of random (or coverage-guided) choices; "
                 "two cases are the same when their choice sequences are. Counted per build configuration. Non-trivial: " +
                 next((r["rule"] for r in results.values()), ""),
            samples=[s for r in results.values() for s in r["samples"]][:24],
            configurations={
                c: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                        per_sub_property=r["per_sub_property"],
                        per_sub_property_nontrivial=r["per_sub_property_nontrivial"],
                        classes=r["labels"], wall_s=r["wall_s"], notes=r["notes"],
                        failure=r["message"]) for c, r in results.items()
            },
            not_built={c: e[:500] for c, e in errors.items()},
            not_run=run_errors,
            build_wall_s=round(t_build, 2),
            compiled_programs=n_probes,
        )
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(violations))
        tmp = HERE + "/evidence/.%s.tmp" % pid
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, HERE + "/evidence/%s.json" % pid)
        for c, r in violations:
            print("%s: %s" % (c, r["message"]))
        if violations:
            print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]["replay"]), flush=True)
            return 1
        if not results:
            return 2
        print("OK property=%s tier=%s seed=%d cases=%d distinct non-trivial=%d configurations=%s in %.1f s" %
              (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ",".join(sorted(results)),
               time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(pid, path):
    spec = spec_of(pid)
    cfgname = None
    compiles = False
    with open(path) as f:
        for line in f:
            if line.strip() == "compile":
                compiles = True
            if line.startswith("config "):
                cfgname = line.split()[1]
    if not cfgname:
        log("no config line in " + path)
        return 2
    os.makedirs(HERE + "/build", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-replay-", dir=HERE + "/build")
    try:
        bins, errors = build(spec, [cfgname], work)
        if compiles:
            broken = any(e.startswith(c + " harness: ") for c, e in errors.items())
            print("does not compile: %s" % errors if broken else "compiles")
            if broken:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1 if broken else 0
        if not bins:
            log(errors)
            return 2
        p = subprocess.run([bins[cfgname], "replay", "--file", os.path.abspath(path), "--work", work],
                           env={**env(), **({"LOCPATH": work + "/locale"} if os.path.isdir(work + "/locale") else {})})
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    ok = True
    for t in ("g++", "clang++"):
        r = shutil.which(t)
        log(t, r)
        ok = ok and r is not None
    for d in ("evidence", "replay", "build"):
        os.makedirs(HERE + "/" + d, exist_ok=True)
    return 0 if ok else 1


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        sys.exit(setup())
    if len(sys.argv) < 2 or sys.argv[1] not in checks.CHECKS:
        log(__doc__)
        sys.exit(2)
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        sys.exit(replay(sys.argv[1], sys.argv[3]))
    sys.exit(check(sys.argv[1]))
