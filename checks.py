"""Which harnesses decide which property, and how they are built and run."""
from dataclasses import dataclass, field

@dataclass
class Job:
    src: list = field(default_factory=list)      # files in harness/
    variant: str = "dbg"                         # build variant of run.py
    mods: tuple = ("core",)                      # parts of /repo/src to compile
    kokkos: bool = False
    serial: bool = False                         # without MPI
    libs: tuple = ()
    flags: tuple = ()
    env: dict = field(default_factory=dict)
    np: int = 0                                  # MPI ranks (0: plain process)
    workers: int = 8
    timeout: float = 20                          # seconds per case before it counts as hanging
    job_timeout: float = 240
    scale: float = 1
    tscale: float = None
    args: tuple = ()
    parts: int = 1                               # the harness is compiled in this many parts
    gen: tuple = ()                              # (script in tools/, arguments): writes a header of the harness from seed and tier
    script: str = None                           # python driver instead of a C++ harness
    fuzz_link: bool = False
    thorough_only: bool = False
    skip: tuple = ()                             # files of the parts not to compile

@dataclass
class Check:
    jobs: list
    technique: str
    note: str
    level: str = "exploration"
    assumptions: list = field(default_factory=list)

def both(src, **kw):
    return [Job(src=src, variant="dbg", **kw), Job(src=src, variant="rel", **kw)]

# integer arithmetic outside the stated domain is not an error by itself (an unneeded intermediate may overflow)
WRAP = ("-fwrapv", "-fno-sanitize=signed-integer-overflow")

CHECKS = {}
CHECKS["C01"] = Check(both(["c01.cpp"]), "model-based property testing of operation histories (own tape-shrinking engine)", "reference model of nested typed maps")
CHECKS["C02"] = Check(both(["c02.cpp"]), "property testing against character-level reference functions and round-trips", "")
CHECKS["C03"] = Check(both(["c03.cpp"]), "property testing: differential against upper-cased strings, model-based container histories", "")
CHECKS["C04"] = Check(both(["c04.cpp"]), "property testing against textbook definitions", "")
CHECKS["C05"] = Check(both(["c05.cpp"]), "property testing against a reference tokenizer", "")
CHECKS["C06"] = Check(both(["c06.cpp"]), "grammar-based generation and mutation against a recursive reference parser", "")
CHECKS["C07"] = Check(both(["c07.cpp"], flags=WRAP), "property testing against exact 128-bit rational arithmetic", "")
CHECKS["C08"] = Check(both(["c08.cpp"], flags=WRAP), "property testing against exact prime-power arithmetic and read-back of the printed text", "")
CHECKS["C09"] = Check(both(["c09.cpp"], flags=WRAP), "random expression trees against an exact model and read-back of the printed text", "")
YAML = dict(mods=("core", "parser"), libs=("yaml-cpp",))
CHECKS["C10"] = Check(both(["c10.cpp"], **YAML), "documents rendered from a reference tree in many styles, compared with an independent classifier of scalar text", "")
CHECKS["C12"] = Check(both(["c12.cpp"], **YAML), "round-trip property testing with a second write as metamorphic check", "")
CHECKS["C11"] = Check(both(["c11.cpp"], **YAML), "structured fuzzing (token soups, mutated documents, edge numbers, raw bytes, deep nesting) under sanitizers with leak accounting", "")
CHECKS["C13"] = Check([Job(src=["c13.cpp"], variant="dbg", serial=True, scale=4)] + [Job(src=["c13.cpp"], variant="dbg" if n in (3, 8) else "rel", np=n) for n in (1, 2, 3, 4, 5, 6, 7, 8)],
                      "model-based histories of collectives run in lock step on 1 to 8 MPI ranks, and on the serial implementation", "")
CHECKS["C14"] = Check(both(["c14.cpp"]), "model-based histories over several factories", "")
CHECKS["C15"] = Check(both(["c15.cpp"], flags=("-fno-builtin", "-frounding-math")), "property testing of the check macros; model-based histories of floating-point exception masks with real traps", "")
CHECKS["C16"] = Check(both(["c16.cpp"]), "property testing against index loops and definitions", "")
CHECKS["C17"] = Check(both(["c17.cpp"]), "model-based histories of argument lists", "")
CHECKS["C18"] = Check([Job(src=["c18.cpp"], variant=v, kokkos=True, flags=("-DVP_T=" + t,), workers=4, thorough_only=late) for late, tv in ((False, ("int dbg", "double dbg", "long rel", "float rel")), (True, ("long dbg", "float dbg", "int rel", "double rel"))) for t, v in map(str.split, tv)], "property testing against scalar arithmetic lane by lane, over element types and pack sizes; model-based histories", "")
CHECKS["C19"] = Check([Job(src=["c19.cpp"], variant=v, kokkos=True, flags=("-DVP_T=" + t,), workers=4, thorough_only=late) for late, tv in ((False, ("int dbg", "double dbg", "float rel")), (True, ("float dbg", "int rel", "double rel"))) for t, v in map(str.split, tv)], "property testing against arrays of booleans and masked scalar loops; model-based mask histories", "")
CHECKS["C20"] = Check(both(["c20.cpp"], kokkos=True), "property testing against scalar loops and 64-bit index arithmetic", "")
CHECKS["C21"] = Check(both(["c21.cpp"], parts=4, kokkos=True), "property testing of every element's address against index arithmetic on the source; rejections observed in child processes", "")
CHECKS["C22"] = Check(both(["c22.cpp"], parts=4, kokkos=True), "property testing against index arithmetic, with guard elements around every host array; round trips", "")
CHECKS["C23"] = Check(both(["c23.cpp"], parts=3, kokkos=True), "random chains of subviews against base/extent/stride arithmetic, addresses of all elements; writes through subviews", "")
CHECKS["C24"] = Check(both(["c24.cpp"], parts=4, kokkos=True), "property testing of every element's address against index arithmetic on the source; malformed requests; odd sources rejected or right", "")
def threads(src, counts, **kw):
    return [Job(src=src, variant=v, kokkos=True, env={"OMP_NUM_THREADS": str(n), "OMP_PROC_BIND": "false", "OMP_WAIT_POLICY": "passive"}, workers=w, **kw) for n, v, w in counts]
CHECKS["C30"] = Check([Job(src=["c30.cpp"], variant=v, kokkos=True, flags=WRAP + ("-fno-builtin",) + (("-DVP_FLAT",) if p == 0 else ()), gen=("gen_c30.py", p), env={"OMP_NUM_THREADS": str(n), "OMP_PROC_BIND": "false", "OMP_WAIT_POLICY": "passive"}, workers=w)
                       for p, v, n, w in [(0, "dbg", 1, 8), (1, "rel", 4, 2), (2, "dbg", 3, 3), (3, "rel", 1, 8), (4, "dbg", 1, 8), (5, "rel", 1, 8)]],
                      "generated programs: random formulas over views against the same formulas on plain numbers", "")
CHECKS["C25"] = Check(threads(["c25.cpp"], [(1, "dbg", 8), (3, "dbg", 3), (4, "rel", 2), (8, "rel", 1)]), "property testing against the left-to-right sum, with poison outside the range, on several thread counts and team sizes", "")
CHECKS["C29"] = Check(threads(["c29.cpp"], [(1, "dbg", 4), (2, "rel", 4), (3, "dbg", 3), (4, "rel", 2), (5, "rel", 2), (6, "rel", 1), (7, "rel", 1), (8, "dbg", 1)]) + [Job(src=["c29b.cpp"], variant=v, kokkos=True, flags=f, env={"OMP_NUM_THREADS": n, "OMP_PROC_BIND": "false", "OMP_WAIT_POLICY": "passive"}, workers=w) for v, f, n, w in [("dbg", (), "4", 2), ("rel", (), "8", 1), ("dbg", ("-DVP_POLICIES",), "1", 2)]], "property testing over policies and thread counts with owners recorded while the teams run", "")
CHECKS["C28"] = Check(threads(["c28.cpp"], [(1, "dbg", 6), (3, "dbg", 3), (4, "rel", 2), (8, "rel", 1), (8, "dbg0", 1)], flags=("-fno-sanitize=alignment",), parts=3), "model-based histories per team, with patterns written to every array held and waits injected in single threads", "")
CHECKS["C26"] = Check(threads(["c26.cpp"], [(1, "dbg", 8), (3, "dbg", 3), (4, "rel", 2), (8, "rel", 1)]) + [Job(src=["c26.cpp"], variant="dbg0", kokkos=True, flags=("-DVP_SCHED",), workers=8)], "property testing against extended-precision solutions and residuals; schedules and races explored with a stand-in team and recording numbers", "")
CHECKS["C27"] = Check(threads(["c27.cpp"], [(1, "dbg", 8), (3, "dbg", 3), (4, "rel", 2), (8, "rel", 1)]) + [Job(src=["c27b.cpp"], variant="dbg", kokkos=True, workers=4)], "property testing against the line through the bracketing points in extended precision, over histories of set-ups and uses", "")
LOGF = dict(flags=("-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"), libs=("spdlog", "fmt"))
CHECKS["C31"] = Check([Job(src=["c31.cpp"], variant="dbg", serial=True, scale=2, **LOGF)] + [Job(src=["c31.cpp"], variant="dbg" if n == 3 else "rel", np=n, **LOGF) for n in (1, 2, 3, 4)],
                      "model-based histories of loggers run in lock step on 1 to 4 MPI ranks, and on the serial implementation", "")
CHECKS["C32"] = Check([Job(src=["c32.cpp"], variant=v, gen=("gen_c32.py", p), workers=2) for p, v in [(0, "dbg"), (1, "rel"), (2, "rel")]],
                      "generated programs: type lists, maps and array types with the answers worked out on ordinary lists", "")
CHECKS["C33"] = Check([Job(src=["c33.cpp"], variant=v, kokkos=True, flags=f, workers=4) for v, f in [("dbg", ()), ("rel", ()), ("dbg", ("-DVP_GPU",)), ("rel", ("-DVP_GPU",))]],
                      "property testing against the standard library in both configurations, child processes for checks that stop the program, type facts over qualifiers and memory traits", "")
T34 = dict(src=["c34.cpp"], mods=("core", "kokkos", "testing-support"), libs=("Catch2",), timeout=60)
CHECKS["C34"] = Check([Job(variant="dbg", kokkos=True, **T34), Job(variant="rel", kokkos=True, flags=("-DEKAT_ENABLE_FPE_DEFAULT_MASK",), **T34),
                       Job(variant="rel", flags=("-DVP_USER",), skip=("ekat_test_session.cpp",), **dict(T34, mods=("core", "testing-support"))),
                       Job(variant="dbg", serial=True, **dict(T34, mods=("core", "testing-support")))],
                      "generated command lines and failure plans for real test programs, also on several MPI ranks, against a model of what runs and with which status", "")
CHECKS["C35"] = Check([Job(src=["c35.cpp"], variant="rel", mods=(), timeout=120)], "generated command lines, environments, declarations and templates for the real tools, with a program that records what it gets, against a model", "")
