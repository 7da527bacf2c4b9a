"""What each check runs. Everything not given is taken from DEFAULT.

cases: number of generated cases per worker process and configuration (quick tier).
thorough tier multiplies it by "deep".
"""

DEFAULT = dict(
    configs=["dbg17", "rel20", "fuzz17"],
    cases=dict(dbg17=200000, rel20=1500000, fuzz17=300000),
    workers=dict(dbg17=3, rel20=2, fuzz17=3),
    deep=25,
    time=dict(quick=15, thorough=600),
    flags=[],
    ldflags=[],
    assumptions=[],
    technique="property-based testing (random + coverage-guided) against an explicit oracle",
    note="",
)

CHECKS = {
    "C01": dict(src="C01_base64.cpp"),
    "C02": dict(src="C02_utf8_round_trip.cpp"),
    "C03": dict(src="C03_utf8_malformed.cpp"),
    "C04": dict(src="C04_endian.cpp"),
    "C05": dict(src="C05_deserializer.cpp"),
    "C06": dict(src="C06_integer_text.cpp", locale=True),
    "C07": dict(src="C07_real_text.cpp", locale=True),
    "C08": dict(src="C08_string_parser.cpp"),
    "C09": dict(src="C09_split_join.cpp"),
    "C10": dict(src="C10_word_wrap.cpp"),
    "C11": dict(src="C11_string_assembly.cpp"),
    "C12": dict(src="C12_format.cpp"),
    "C13": dict(src="C13_tree_traversal.cpp"),
    "C14": dict(src="C14_tree_edit.cpp"),
    "C15": dict(src="C15_tree_value.cpp"),
    "C16": dict(src="C16_span.cpp"),
    "C17": dict(src="C17_flags.cpp"),
    "C18": dict(src="C18_enum.cpp"),
    "C19": dict(src="C19_views.cpp"),
    "C20": dict(src="C20_container_helpers.cpp"),
    "C21": dict(src="C21_linq.cpp"),
    "C22": dict(src="C22_sort.cpp", probes=[("C22_probe.cpp", "g++", "c++17"), ("C22_probe.cpp", "clang++", "c++17"),
                                              ("C22_probe.cpp", "g++", "c++20")],
                probe_variants=dict(quick=2, thorough=40)),
    "C23": dict(src="C23_signal.cpp"),
    "C24": dict(src="C24_scope_exit.cpp"),
    "C25": dict(src="C25_refs.cpp"),
    "C26": dict(src="C26_singleton.cpp"),
    "C27": dict(src="C27_exception.cpp"),
    "C28": dict(src="C28_debug.cpp", configs=["dbg17", "rel20", "dbg20", "fuzz17"],
                cases=dict(dbg17=200000, rel20=1500000, dbg20=1500000, fuzz17=300000),
                workers=dict(dbg17=2, rel20=2, dbg20=2, fuzz17=2)),
    "C29": dict(src="C29_spin_lock.cpp", configs=["tsan17", "tsan20", "rel17", "rel20"],
                cases=dict(tsan17=200000, tsan20=200000, rel17=1000000, rel20=1000000),
                workers=dict(tsan17=2, tsan20=2, rel17=2, rel20=2),
                engine_flags=["-DPBT_REPEAT=30", "-DPBT_HANG_CPU=200", "-DPBT_HANG_WALL=200"],
                assumptions=["thread schedules are those the operating system gave, perturbed by generated pauses; "
                             "missing ordering is found by ThreadSanitizer's happens-before relation rather than by luck"],
                technique="stateful property-based testing with generated thread programs, schedule perturbation and a race detector"),
    "C30": dict(src="C30_version_math.cpp"),
    "C31": dict(src="C31_terminal.cpp"),
    "C32": dict(src="C32_time.cpp"),
    "C33": dict(src="C33_types.cpp"),
    "C34": dict(src="C34_config.cpp", lib=False, configs=["dbg17"], cases=dict(dbg17=4000), workers=dict(dbg17=8),
                time=dict(quick=40, thorough=600),
                assumptions=["the macros predefined by clang 18 for a target are those which compilers for the target predefine; "
                             "GCC for other targets is clang with the macro which tells clang removed"],
                technique="property-based testing: generated targets, compilers, standards and options, preprocessed for real, "
                          "against what is known about the target"),
    "C35": dict(src="C35_headers.cpp", lib=False, configs=["dbg17"], cases=dict(dbg17=4000), workers=dict(dbg17=8),
                time=dict(quick=60, thorough=900),
                engine_flags=["-DPBT_HANG_CPU=300", "-DPBT_HANG_WALL=300"],
                technique="property-based testing: generated programs, compiled and linked for real"),
    "C36": dict(src="C36_misuse.cpp", configs=["dbg17", "dbg20"], cases=dict(dbg17=30000, dbg20=60000),
                workers=dict(dbg17=4, dbg20=4), time=dict(quick=30, thorough=300)),
    "C37": dict(src="C37_faults.cpp"),
    "C38": dict(src="C38_threads.cpp", configs=["tsan17", "tsan20", "rel17", "dbg17"],
                cases=dict(tsan17=200000, tsan20=200000, rel17=1000000, dbg17=1000000),
                workers=dict(tsan17=2, tsan20=2, rel17=2, dbg17=2),
                engine_flags=["-DPBT_REPEAT=30", "-DPBT_HANG_CPU=200", "-DPBT_HANG_WALL=200"],
                assumptions=["thread schedules are those the operating system gave; a race which no schedule showed as a "
                             "wrong result is found by ThreadSanitizer's happens-before relation"],
                technique="property-based testing with generated thread programs against the same work done alone, and a "
                          "race detector"),
}

NOT_APPLICABLE = {}

LEVEL_NOTE = (
    "Generated-input search: the property held on every generated case, in a debug build (asserts, ASan, UBSan; C++17), "
    "an optimised release build (C++20) and a coverage-guided build (clang, ASan, UBSan; C++17). It does not establish "
    "absence of violations. Trusted: the oracle in the harness, the C++ standard library, compilers and sanitizers."
)

NOTES = (
    "Each check rebuilds harness and /repo/src/utki from the working tree into a scratch folder under /verif/build, "
    "removed at the end. Failing cases are shrunk and saved under /verif/replay; replay with "
    "'python3 run.py <id> --replay <file>'. Evidence is per run. See DESIGN.md and known_findings.txt."
)
