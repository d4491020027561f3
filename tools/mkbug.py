"""Write and confirm planted bugs: mkbug.py SPEC.py [ID...]   (a development tool; no check uses it)
SPEC.py calls B(id, property, [(file, old, new)...], needs, breaks, demo, **kw). Everything is confirmed in the scratch clone /tmp/w/bug/repo:
the patch applies, builds, passes the stable tests; the demonstration exits 0 without and non-zero with it. Then it goes to /verif/seeded/ID."""
import json, os, pathlib, subprocess, sys, re
W = pathlib.Path("/tmp/w/bug"); R = W / "repo"; OUT = pathlib.Path(os.environ.get("SEEDED", "/verif/seeded"))
BUGS = []
def B(id, prop, edits, needs, breaks, demo, kind="core", np=0, flags="", env="", kokkos=False, patch=None): BUGS.append(dict(locals()))
exec(open(sys.argv[1]).read(), {"B": B})
def run(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
SHIM = (pathlib.Path(__file__).resolve().parent.parent / "run.py").read_text()
i = SHIM.index("def make_shim"); SHIM = "import pathlib, sys\n" + SHIM[i:SHIM.index("\ndef ", i + 5)] + "\nmake_shim(pathlib.Path(sys.argv[1]))\n"
def demo_sh(b):
    mpi = b["np"] > 0; kk = b["kokkos"]; src = {"core": "", "yaml": "src/parser/*.cpp", "log": "", "none": "", "catch": ""}[b["kind"]]
    libs = {"core": "", "yaml": "-lyaml-cpp", "log": "-lspdlog -lfmt", "none": "", "catch": "-lCatch2"}[b["kind"]]
    fl = {"log": "-DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL"}.get(b["kind"], "")
    s = ["#!/bin/bash", "# cwd: the repository. Exit 0: the property holds in this demonstration.", 'D=$(cd "$(dirname "$0")" && pwd)', "T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2", 'trap \'rm -r -- "$T"\' EXIT']
    inc = "-Isrc/core -Isrc/kokkos -Isrc/pack -Isrc/algorithm -Isrc/expression -Isrc/parser -Isrc/logging -I/opt/vp/compat"
    if kk: s.append('python3 "$D/shim.py" "$T/shim" || exit 2'); inc = '-I"$T/shim" ' + inc; fl += " -DEKAT_HAS_KOKKOS"; libs += " -lkokkoscontainers -lkokkoscore -ldl"
    if mpi: fl += " -DEKAT_ENABLE_MPI -DOMPI_SKIP_MPICXX -isystem /usr/lib/x86_64-linux-gnu/openmpi/include"; libs += " /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so"
    core = "" if b["kind"] == "none" else "$(ls src/core/*.cpp | grep -v %s)" % ("ekat_comm_serial" if mpi else "ekat_comm.cpp")
    s.append('g++ -std=gnu++17 %s -fopenmp -DEKAT_DEFAULT_BFB -DEKAT_HAVE_FEENABLEEXCEPT -DKOKKOS_DEPENDENCE -DKOKKOS_ENABLE_CXX17 -Wno-deprecated-declarations %s %s "$D/demo.cpp" %s %s -o "$T/demo" %s || exit 2' % (b["flags"] or "-O1", fl, inc, core, src, libs))
    s.append('cd "$T"')
    e = "OMP_PROC_BIND=false KOKKOS_DISABLE_WARNINGS=1 " + b["env"]
    if mpi:
        e += " OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_rmaps_base_oversubscribe=1"
        s.append("%s timeout 120 mpirun -np %d ./demo" % (e, b["np"]))
    else: s.append("%s timeout 120 ./demo" % e)
    return "\n".join(s) + "\n"
PRE = '''#include <cstdio>
#include <cstdlib>
#include <string>
#define HOLDS(c) do { if (!(c)) { std::printf("broken: %s (line %d)\\n",#c,__LINE__); std::fflush(stdout); std::_Exit(1); } } while(0)
'''
ok = True
for b in BUGS:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    run("git -C %s checkout -q -- . && git -C %s clean -fdq" % (R, R)); d = OUT / b["id"]; bad = None
    head = run("git -C /repo rev-parse HEAD").stdout.strip()
    if run("git -C %s rev-parse HEAD" % R).stdout.strip() != head: run("git -C %s fetch -q /repo && git -C %s reset -q --hard %s" % (R, R, head))
    for f, x, y in b["edits"]:
        s = (R / f).read_text()
        if s.count(x) != 1: bad = "%s: %d occurrences of %r" % (f, s.count(x), x); break
        (R / f).write_text(s.replace(x, y))
    if bad: print(b["id"], "EDIT", bad); ok = False; continue
    diff = run("git -C %s diff" % R).stdout
    tmp = W / "d" / b["id"]; run("mkdir -p %s" % tmp)
    if b["kind"] == "sh": (tmp / "demo.sh").write_text("#!/bin/bash\n# cwd: the repository. Exit 0: the property holds in this demonstration.\n" + b["demo"])
    else: (tmp / "demo.cpp").write_text(PRE + b["demo"]); (tmp / "demo.sh").write_text(demo_sh(b))
    (tmp / "patch.diff").write_text(diff)
    if b["kokkos"]: (tmp / "shim.py").write_text(SHIM)
    (tmp / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    r = run("bash %s/demo.sh" % tmp, cwd=R)
    if r.returncode == 0: bad = "demo passes with the patch"
    with_out = r.stdout[-300:]
    if "error:" in r.stdout: bad = "demo does not compile with the patch: " + r.stdout[-1500:]
    # blame: the changed lines must be the original repository's
    base = "4092433"
    for f, x, y in b["edits"]:
        s0 = run("git -C %s show HEAD:%s" % (R, f)).stdout; off = s0.index(x); pre = os.path.commonprefix([x, y]); l1 = s0[:off + len(pre)].count("\n") + 1
        suf = os.path.commonprefix([x[len(pre):][::-1], y[len(pre):][::-1]]); l2 = s0[:off + len(x) - len(suf)].count("\n") + 1
        bl = run("git -C %s blame -l -s -L%d,%d HEAD -- %s" % (R, l1, max(l1, l2), f)).stdout
        if any(not l.startswith("^") and not run("git -C %s merge-base --is-ancestor %s %s" % (R, l.split()[0], base)).returncode == 0 for l in bl.splitlines()): print(b["id"], "  note: touches lines of a fix:", bl)
    if not bad:
        t = run("bash /tmp/w/bug/test.sh /tmp/w/bug/o.json"); o = json.load(open("/tmp/w/bug/o.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if not stable <= set(o["passed"]): bad = "tests fail: %s" % sorted(stable - set(o["passed"]))[:5] + t.stdout[-1500:] * ("build failed" in t.stdout)
    run("git -C %s checkout -q -- ." % R)
    if not bad:
        r = run("bash %s/demo.sh" % tmp, cwd=R)
        if r.returncode != 0: bad = "demo fails on the unchanged tree (%d): %s" % (r.returncode, r.stdout[-1500:])
    if bad: print(b["id"], "REJECTED", bad); ok = False; continue
    run("mkdir -p %s" % OUT); run("rm -rf %s; cp -r %s %s" % (d, tmp, d)); print(b["id"], "kept:", with_out.strip()[-160:], flush=True)
sys.exit(0 if ok else 1)
