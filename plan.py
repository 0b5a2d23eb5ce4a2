"""What each property's check builds and runs."""

CELL, MT, ND, AS = ("INTP_CELL_LAYOUT", "INTP_MULTITHREAD",
                    "INTP_PERIODIC_NO_DUMMY_POINT", "INTP_ENABLE_ASSERTION")
ST = "INTP_STACK_ALLOCATOR"

CFGS = {
    0: dict(std="c++17", macros=[]),
    1: dict(std="c++20", macros=[CELL, ND]),
    2: dict(std="c++14", macros=[MT]),
    3: dict(std="c++11", macros=[CELL, MT], cxx="clang++"),
    4: dict(std="c++11", macros=[ND, AS]),
    5: dict(std="c++20", macros=[CELL, MT, ND]),
}
# pairs (2k, 2k+1) that differ by multithreading only, for C11
DBG, TRC = "INTP_DEBUG", "INTP_TRACE"
_PAIRS = [
    ("c++11", "g++", []), ("c++11", "clang++", [CELL, ND, ST]),
    ("c++14", "g++", [ND, AS]), ("c++14", "g++", [CELL, ST, DBG]),
    ("c++17", "g++", [ND, ST, AS]), ("c++17", "clang++", [CELL, AS]),
    ("c++20", "clang++", [TRC, ND]), ("c++20", "g++", [CELL, ND, TRC, ST]),
]
for _i, (_s, _c, _m) in enumerate(_PAIRS):
    CFGS[20 + 2 * _i] = dict(std=_s, macros=_m, cxx=_c)
    CFGS[21 + 2 * _i] = dict(std=_s, macros=_m + [MT], cxx=_c)
# pairs (2k, 2k+1), the second with assertions, for C18
_APAIRS = [
    ("c++17", "g++", [], AS), ("c++20", "g++", [CELL, MT, ND], AS),
    ("c++11", "g++", [CELL, ND], DBG), ("c++14", "clang++", [], TRC),
]
for _i, (_s, _c, _m, _a) in enumerate(_APAIRS):
    CFGS[40 + 2 * _i] = dict(std=_s, macros=_m, cxx=_c)
    CFGS[41 + 2 * _i] = dict(std=_s, macros=_m + [_a], cxx=_c)

FULL = [(1, [0, 1, 2, 3, 4]), (1, [5, 6, 7, 8, 9]), (2, [0, 1, 2, 3]), (2, [4, 5, 6]),
        (3, [0, 1, 2]), (3, [3, 4]), (4, [0, 1]), (4, [2, 3])]
PART_A = [(1, [0, 1, 2, 3, 4]), (2, [1, 2, 3]), (3, [1, 2])]
PART_B = [(1, [2, 3, 6]), (2, [2, 3]), (3, [2, 3]), (4, [1])]

SEM = {0: FULL, 5: FULL, 3: PART_A, 4: PART_B, 2: PART_B}


def sem(id, quick, thorough, backends=SEM, **kw):
    return dict(name=id, src=["p_%s.cpp" % id, "main.cpp"], backends=backends,
                quick=quick, thorough=thorough, **kw)


def lib(id, quick, thorough, suffix="", **kw):
    """property file that includes the library's headers itself"""
    src = ["p_%s.cpp" % id, "main.cpp"] + [
        "p_%s.cpp -DPART=%d" % (id, i) for i in range(1, kw.pop("parts", 0) + 1)]
    return dict(name=id + suffix, src=src, quick=quick, thorough=thorough, **kw)


CELLS = {5: FULL, 3: PART_A, 1: PART_B}

BS1 = [(1, list(range(8))), (2, [0, 1, 2, 3, 4]), (3, [0, 1, 2, 3]), (4, [1, 2])]
BS2 = [(1, [0, 1, 2, 3, 4, 5]), (2, [1, 2, 3]), (3, [1, 2]), (4, [1])]
BS = {0: BS1, 1: BS1, 3: BS2, 4: BS2}



def _ty(types):
    return ["ty_adaptor.cpp -DTYP=%d" % i for i in types]


PROPS = {
    "C01": dict(targets=[sem("C01", (20000, 200), (1000000, 2400))]),
    "C02": dict(targets=[sem("C02", (60000, 200), (3000000, 2400))]),
    "C03": dict(targets=[sem("C03", (60000, 200), (3000000, 2400))]),
    "C04": dict(targets=[sem("C04", (60000, 200), (3000000, 2400))]),
    "C05": dict(targets=[sem("C05", (30000, 200), (1500000, 2400))]),
    "C06": dict(targets=[sem("C06", (30000, 200), (1500000, 2400))]),
    "C07": dict(targets=[sem("C07", (40000, 200), (2000000, 2400))]),
    "C08": dict(targets=[sem("C08", (50000, 200), (2500000, 2400))]),
    "C09": dict(targets=[sem("C09", (12000, 200), (600000, 2400))]),
    "C10": dict(targets=[sem("C10", (40000, 200), (2000000, 2400), CELLS)]),
    "C19": dict(targets=[
        dict(name="C19", src=["p_C19.cpp", "main.cpp"], quick=(150000, 120),
             thorough=(2000000, 1800), must_build=[0, 1],
             cfg_src={0: _ty(range(11)), 1: _ty([0, 3, 4, 6, 7]), 3: _ty([0, 3, 4, 6])}),
    ]),
    "C16": dict(targets=[
        sem("C16", (200000, 120), (3000000, 1800), BS, adaptor="bs_adaptor.cpp"),
    ]),
    "C15": dict(targets=[
        lib("C15", (40000, 120), (2000000, 1200), parts=4, src_flags=["-O1"]),
        lib("C15", (10000, 120), (500000, 600), "_assert", cxx="clang++",
            parts=4, src_flags=["-std=c++20", "-O1", "-D" + AS]),
    ]),
    "C14": dict(targets=[
        lib("C14", (30000, 120), (3000000, 1200), parts=5, src_flags=["-O1"]),
        lib("C14", (30000, 120), (3000000, 1200), "_assert", cxx="clang++",
            parts=5, src_flags=["-std=c++20", "-O1", "-D" + AS]),
    ]),
}
SAN = ["-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DMEM_ONLY"]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:quarantine_size_mb=32:allocator_may_return_null=1:"
           "detect_stack_use_after_return=1:strict_init_order=1:symbolize=1:"
           "max_malloc_fill_size=65536:malloc_fill_byte=190",
           "UBSAN_OPTIONS": "print_stacktrace=1", "LSAN_OPTIONS": "exitcode=23"}
S17A = [(1, [0, 1, 2, 3]), (1, [4, 5, 6]), (2, [0, 1, 2]), (2, [3, 4]), (3, [1, 2]), (3, [3]),
        (4, [1]), (4, [2])]
S17B = [(1, [1, 2, 3, 4]), (2, [1, 2]), (2, [3]), (3, [1, 2])]
PROPS["C17"] = dict(targets=[
    dict(name="C17", src=["p_C17.cpp", "main.cpp"], cxx="clang++", flags=SAN, env=SAN_ENV,
         backends={0: S17B, 5: S17A, 3: S17B, 4: S17B},
         quick=(6000, 150), thorough=(1000000, 2400)),
    dict(name="C17_fill", src=["p_C17.cpp -DFILL", "main.cpp"], backends=SEM,
         env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
         quick=(20000, 120), thorough=(1000000, 1200)),
    dict(name="C17_bspline", src=["p_C16.cpp", "main.cpp"], adaptor="bs_adaptor.cpp",
         cxx="clang++", flags=SAN, env=SAN_ENV, backends={0: BS2, 1: BS2},
         quick=(20000, 60), thorough=(1000000, 1200)),
    lib("C14", (6000, 60), (500000, 1200), "_san", cxx="clang++", flags=SAN, env=SAN_ENV,
        parts=5, src_flags=["-O1"]),
    lib("C15", (6000, 60), (500000, 1200), "_san", cxx="clang++", flags=SAN, env=SAN_ENV,
        parts=4, src_flags=["-O1"]),
])

TSAN = ["-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"}
PROPS["C13"] = dict(targets=[
    lib("C13", (1500, 120), (200000, 1200), libs=["-ldl"]),
    lib("C13", (1500, 120), (200000, 1200), "_11", libs=["-ldl"], cxx="clang++",
        src_flags=["-std=c++11"]),
    lib("C13", (400, 120), (60000, 1800), "_tsan", cxx="clang++", flags=TSAN, env=TSAN_ENV),
])

T12A = [(1, [0, 1, 2, 3]), (1, [4, 5]), (2, [1, 2]), (2, [3]), (3, [1, 2]), (3, [3]), (4, [1])]
T12B = [(1, [1, 2, 3]), (2, [2, 3]), (3, [2])]
PROPS["C12"] = dict(targets=[
    dict(name="C12_tsan", src=["p_C12.cpp", "main.cpp"], cxx="clang++", flags=TSAN, env=TSAN_ENV,
         backends={0: T12B, 2: T12B, 3: T12A, 5: T12A},
         quick=(1500, 150), thorough=(60000, 2400)),
    dict(name="C12", src=["p_C12.cpp", "main.cpp"],
         backends={0: PART_A, 2: PART_B, 5: PART_A, 3: PART_B},
         quick=(6000, 60), thorough=(400000, 1200)),
])

C11_TUS = [(1, [0, 1, 2, 3, 4]), (2, [2, 3]), (3, [1, 2])]
PROPS["C11"] = dict(
    assumptions=["builds: " + "; ".join(
        "%d: %s -std=%s %s" % (20 + 2 * i, c, s, " ".join(m)) for i, (s, c, m) in enumerate(_PAIRS))
        + "; odd numbers: the same with INTP_MULTITHREAD"],
    targets=[
        sem("C11", (20000, 120), (300000, 2400), {k: C11_TUS for k in range(20, 36)},
            must_build="all"),
        dict(name="C11_combos", python="combos", quick=(48, 0), thorough=(512, 0)),
    ])

C18_TUS = [(1, [0, 1, 2, 3, 4, 5]), (2, [1, 2, 3]), (3, [1, 2])]
PROPS["C18"] = dict(targets=[
    sem("C18", (40000, 60), (1000000, 1200), {k: C18_TUS for k in range(40, 48)}, must_build="all"),
    dict(name="C18_bspline", src=["p_C18b.cpp", "main.cpp"], adaptor="bs_adaptor.cpp",
         backends={k: BS2 for k in (41, 43, 45, 47)}, quick=(60000, 60), thorough=(1000000, 600)),
    dict(name="C18_mesh", src=["p_C18m.cpp", "main.cpp"], src_flags=["-D" + AS],
         quick=(100000, 60), thorough=(2000000, 600)),
    dict(name="C18_mesh_debug", src=["p_C18m.cpp", "main.cpp"], cxx="clang++",
         src_flags=["-std=c++11", "-DINTP_DEBUG"],
         quick=(100000, 60), thorough=(2000000, 600)),
])

PROPS["C20"] = dict(targets=[
    lib("C20", (200000, 60), (2000000, 900), parts=6, src_flags=["-O1"]),
    lib("C20", (80000, 60), (2000000, 900), "_mt", parts=6, cxx="clang++",
        src_flags=["-O1", "-std=c++20", "-D" + CELL, "-D" + MT]),
    lib("C20", (40000, 60), (500000, 900), "_san", parts=6, cxx="clang++",
        flags=[f for f in SAN if f != "-DMEM_ONLY"], src_flags=["-O1"], env=SAN_ENV),
])

_REF = ("property-based testing: generated grids, data and coordinates; oracle: independent "
        "long double reference spline with running error bounds")
_META = "property-based testing: metamorphic relations over generated grids, data and coordinates"
TECHNIQUE = {
    "C01": "property-based testing: generated grids and data; oracle: the data themselves (round trip)",
    "C02": _REF,
    "C03": _REF + " differentiated exactly",
    "C04": "property-based testing: generated polynomials; oracle: the polynomial and its derivatives",
    "C05": _META + " (period translations, seam continuity, rotations)",
    "C06": _META + " (superposition, independence of an axis, constants)",
    "C07": _META + " (shift, scale, mirror, permute, uniform as list, products)",
    "C08": "property-based testing: generated coordinates within ulps of the range; oracle: interval membership",
    "C09": "stateful model-based testing: generated histories of copy/move/assign/interpolate against a model of values",
    "C10": "property-based testing: differential, proxy against direct evaluation",
    "C11": "property-based testing: differential between 16 builds (bit-equal for threading, rounding otherwise); generated standard x macro builds",
    "C12": "property-based testing of generated concurrent histories under ThreadSanitizer; oracle: bit-equality with the sequential result",
    "C13": "stateful property-based testing: generated task/submitter/exit schedules with fault injection; oracle: per-task run counts, futures, termination; ThreadSanitizer",
    "C14": "stateful model-based testing: generated mesh operation histories against a flat vector model",
    "C15": "property-based testing: generated matrices and right-hand sides; oracle: dense long double model and backward error bound",
    "C16": "property-based testing: generated knots, control nets and hints; oracle: long double Cox-de Boor recursion",
    "C17": "fuzzing: generated API histories under AddressSanitizer, UBSan and LeakSanitizer, and repeated under differing heap fill patterns",
    "C18": "property-based testing: generated single faults (must throw) and valid input (must not, and must equal the plain build)",
    "C19": "property-based testing: differential between value types; oracle: long double reference per component",
    "C20": "stateful model-based testing: generated container and raw allocation histories with injected allocation failures against a model",
}
_TRUST = ("Search, not proof: holds on every generated case of the run (counts in the evidence). "
          "Trusts the compilers")
LEVEL_NOTE = {
    "C01": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C02": _TRUST + " and the reference spline in harness/ref.hpp (long double, dense solve).",
    "C03": _TRUST + " and the reference spline in harness/ref.hpp.",
    "C04": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C05": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C06": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C07": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C08": _TRUST + "; the oracle is exact.",
    "C09": _TRUST + "; a function must equal a freshly built one bit for bit or within the rounding allowance.",
    "C10": _TRUST + " and the condition estimate that scales the rounding allowance.",
    "C11": _TRUST + " and, across layouts and standards, the condition estimate that scales the rounding allowance.",
    "C12": _TRUST + ", ThreadSanitizer's race detection on the interleavings that occurred.",
    "C13": _TRUST + "; schedules are those the generated delays and the kernel produced.",
    "C14": _TRUST + "; the oracle is exact.",
    "C15": _TRUST + " and a first-order backward error bound for LU without pivoting.",
    "C16": _TRUST + " and the recursion in p_C16.cpp.",
    "C17": _TRUST + " and what ASan/UBSan/LSan can see; uninitialised reads are seen through differing results under two heap fills.",
    "C18": _TRUST + "; the oracle is exact.",
    "C19": _TRUST + " and the reference spline in harness/ref.hpp.",
    "C20": _TRUST + "; the oracle is exact.",
}

for _p in PROPS.values():
    for _i, _t in enumerate(_p["targets"]):
        _t["salt"] = _i
