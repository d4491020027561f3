#!/usr/bin/env python3
"""run.py ID [quick|thorough]  - build the harness of a property from /repo and run it
   run.py replay FILE          - rebuild and replay a saved failing case
Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it did not."""
import hashlib, json, os, pathlib, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
sys.path.insert(0, str(V))
from checks import CHECKS, Job

BUILD = pathlib.Path(os.environ.get("VP_BUILD", V / "build"))
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
MPI_LIB = "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so"
BASE = ["-std=gnu++17", "-DEKAT_DEFAULT_BFB", "-DEKAT_HAVE_FEENABLEEXCEPT", "-DEKAT_MPI_ERRORS_ARE_FATAL", "-DOMPI_SKIP_MPICXX",
        "-DKOKKOS_DEPENDENCE", "-DKOKKOS_ENABLE_CXX17", "-g1", "-fopenmp", "-isystem", MPI_INC, "-Wno-deprecated-declarations"]
VARIANTS = {  # name: (compiler, flags)
    "dbg": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]),
    "rel": ("g++", ["-O2", "-DNDEBUG", "-ffp-contract=off"]),
    "dbg0": ("g++", ["-O1", "-fno-omit-frame-pointer"]),   # debug checks on, no sanitizer (threads run at full speed)
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined"]),
}
if os.environ.get("VP_COV"):   # tools/coverage.py: which lines do the checks execute
    VARIANTS = {k: ("g++", ["-O0", "--coverage", "-DVP_GCOV"] + [x for x in v[1] if x == "-DNDEBUG"]) for k, v in VARIANTS.items() if k != "fuzz"}
ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMPI_MCA_oob_tcp_if_include": "lo", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMP_PROC_BIND": "false",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1", "OMP_NUM_THREADS": "1", "LC_ALL": "C", "KOKKOS_DISABLE_WARNINGS": "1",
}

def log(*a): print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make_shim(d):
    """The installed Kokkos 3.7 lacks three things of Kokkos 4 that parts of EKAT use: View::rank as an object
    convertible to unsigned and callable, View::element_type, and is_view_v. Provide a patched copy of the header."""
    d.mkdir(parents=True, exist_ok=True)
    s = pathlib.Path("/usr/include/Kokkos_View.hpp").read_text()
    def rep(s, a, b):
        assert a in s, a
        return s.replace(a, b)
    s = rep(s, "enum { rank = dimension::rank };", "static constexpr ::ekat_verif_shim::rank_t<dimension::rank> rank = {};")
    i = s.index("namespace Kokkos {")
    s = s[:i] + """namespace ekat_verif_shim { template<unsigned R> struct rank_t { constexpr rank_t() = default;
constexpr operator unsigned() const {return R;} constexpr unsigned operator()() const {return R;} }; }
""" + s[i:]
    import re
    m = re.search(r"using value_type\s*=\s*typename data_analysis::value_type;|typedef typename data_analysis::value_type\s+value_type;", s)
    assert m
    s = s[:m.end()] + "\n  using element_type = value_type;\n" + s[m.end():]
    i = s.rindex("#endif")
    s = s[:i] + "namespace Kokkos { template<class T> inline constexpr bool is_view_v = is_view<T>::value; }\n" + s[i:]
    (d / "Kokkos_View.hpp").write_text(s)

def ekat_sources(mods, serial_comm, skip=()):
    out = []
    for m in mods:
        for f in sorted((REPO / "src" / m).glob("*.cpp")):
            if f.name in skip: continue
            if f.name == ("ekat_comm.cpp" if serial_comm else "ekat_comm_serial.cpp"): continue
            out.append(f)
    return out

class NoAnswer(Exception): pass
class DoesNotCompile(Exception): pass

def build_jobs(jobs, bdir, tier, seed):
    """Compile everything the jobs need, in parallel. Returns {job index: binary}."""
    if bdir.exists(): shutil.rmtree(bdir)
    bdir.mkdir(parents=True)
    if any(j.kokkos for j in jobs): make_shim(bdir / "shim")
    objs, bins = {}, {}
    def flags(j):
        cxx, fl = VARIANTS[j.variant]
        f = list(fl) + list(BASE)
        if not j.serial: f.append("-DEKAT_ENABLE_MPI")
        if j.kokkos: f = ["-I%s" % (bdir / "shim"), "-DEKAT_HAS_KOKKOS"] + f
        f += ["-I%s" % (REPO / "src" / m) for m in ("core", "kokkos", "pack", "algorithm", "expression", "parser", "logging")]
        if j.gen:   # a generated part of the harness
            gd = bdir / ("gen-" + "-".join(map(str, j.gen)))
            if not gd.exists():
                gd.mkdir()
                r = sh([sys.executable, V / "tools" / j.gen[0], gd, seed, tier] + list(j.gen[1:]))
                if r.returncode: log("GENERATOR FAILED", r.stdout[-3000:]); sys.exit(2)
            f += ["-I%s" % gd]
        f += ["-I/opt/vp/compat", "-I%s" % (V / "lib"), "-I%s" % (V / "harness")] + list(j.flags)
        return cxx, f
    tasks = []
    for ji, j in enumerate(jobs):
        cxx, f = flags(j)
        need = []
        for s, part in [(V / "harness" / x, k) for x in j.src for k in range(j.parts)] + [(x, None) for x in ekat_sources(j.mods, j.serial, j.skip)]:
            ff = [x for x in f if x not in j.flags] if part is None else f + ["-DVP_PART=%d" % part] if j.parts > 1 else f
            if part is None and s.parent.name == "testing-support":   # its main program becomes a function which the harness calls
                ff = ff + ["-Dmain=ekat_test_main"] + [x for x in j.flags if x.startswith("-DEKAT_")]
            key = hashlib.sha1((str(s) + cxx + " ".join(ff)).encode()).hexdigest()[:12]
            o = bdir / ("%s-%s.o" % (s.stem, key))
            if o not in objs:
                objs[o] = None
                tasks.append((o, [cxx] + ff + ["-c", s, "-o", o]))
            need.append(o)
        link = [cxx] + [x for x in f if x.startswith("-fsanitize") or x in ("-fopenmp", "--coverage")] + need
        if j.fuzz_link: link = [x for x in link if "fuzzer-no-link" not in str(x)] + ["-fsanitize=fuzzer,address,undefined"]
        b = bdir / ("bin-" + hashlib.sha1((" ".join(map(str, link)) + str(j.libs)).encode()).hexdigest()[:12])
        link += ["-o", b] + ["-l" + l for l in j.libs] + ([MPI_LIB] if not j.serial else [])
        if j.kokkos: link += ["-lkokkoscontainers", "-lkokkoscore", "-ldl"]
        bins[ji] = (b, link)
    def comp(t):
        t1 = time.time(); r = sh(t[1])
        if os.environ.get("VP_TIMES"): log("%6.1f s %s" % (time.time() - t1, t[0].name))
        return t, r
    err = None
    # the biggest translation units first (harnesses come first in the list)
    with ThreadPoolExecutor(8) as ex:
        for t, r in ex.map(comp, tasks):
            if r.returncode and err is None: err = (t, r)
    if err:
        o = err[1].stdout; i = max(0, o.find("error") - 1500)
        if str(err[0][1][-3]).startswith(str(V)) and err[1].returncode == 1 and " error: " in o and "fatal error: " not in o.replace("fatal error: ekat", ""): raise DoesNotCompile(o[i:i + 6000])
        log("BUILD FAILED:", " ".join(map(str, err[0][1]))); o=err[1].stdout; i=max(0,o.find("error")-1500); log(o[i:i+6000])
        sys.exit(2)
    done = {}
    uniq = {b: l for b, l in bins.values()}
    with ThreadPoolExecutor(8) as ex:
        for b, r in zip(uniq, ex.map(sh, uniq.values())):
            if r.returncode:
                log("LINK FAILED", r.stdout[-4000:]); sys.exit(2)
    return {ji: b for ji, (b, l) in bins.items()}

def kill_group(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass

def run_proc(cmd, env, timeout, cwd):
    """Returns (returncode or None on timeout, output)."""
    p = subprocess.Popen([str(c) for c in cmd], env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill_group(p); out, _ = p.communicate()
        return None, out

def job_env(j, tmp):
    e = dict(os.environ); e.update(ENV); e.update(j.env); e["VP_TMP"] = str(tmp); e["TMPDIR"] = str(tmp); e["VP_REPO"] = str(REPO)
    return e

def mpi_cmd(j):
    return ["mpiexec", "--oversubscribe", "--bind-to", "none", "-n", str(j.np)] if j.np else []

def run_job(j, binary, tier, seed, tmp, tag, budget):
    tmp = tmp / tag; tmp.mkdir(parents=True, exist_ok=True)
    out = tmp / "result.json"
    env = job_env(j, tmp)
    scale = j.scale if tier == "quick" else (j.scale if j.tscale is None else j.tscale)
    if j.script:
        r = sh([sys.executable, V / "harness" / j.script, "--tier", tier, "--seed", seed, "--out", out, "--repo", REPO, "--tmp", tmp] + list(j.args), env=env)
        if not out.exists():
            log(r.stdout[-4000:]); sys.exit(2)
        return json.loads(out.read_text())
    args = ["--tier", tier, "--seed", seed, "--out", out, "--scale", scale, "--workers", j.workers, "--timeout", j.timeout] + list(j.args)
    if not j.np:
        if tier == "quick": args += ["--budget", "%.0f" % budget]
        rc, o = run_proc([binary] + args, env, 7200 if tier != "quick" else budget + 150, tmp)
        if rc not in (0, 1):
            raise NoAnswer("harness ended with %s %s" % (rc, o[-3000:]))
        return json.loads(out.read_text())
    return run_mpi(j, binary, args, env, tier, seed, tmp, out)

def run_mpi(j, binary, args, env, tier, seed, tmp, out):
    """A crash or deadlock ends the job; the tape file tells in which case."""
    tf = tmp / "tape.bin"
    def once():
        for f in (out, tf):
            if f.exists(): f.unlink()
        rc, o = run_proc(mpi_cmd(j) + [binary] + args + ["--tapefile", tf], env, j.job_timeout * (20 if tier != "quick" else 1), tmp)
        try:
            res = json.loads(out.read_text())
            if rc in (0, 1):
                bad = [r for r in res if r["failure"]]
                return res, (bad[0]["prop"], "fail", bad[0]["failure"]["index"]) if bad else None, None, o
        except Exception: pass
        if not tf.exists():
            log("MPI job did not start", rc, o[-3000:]); sys.exit(2)
        raw = tf.read_bytes()
        idx, = struct.unpack_from("<Q", raw, 8)
        n, = struct.unpack_from("<Q", raw, 88)
        prop = raw[20:84].split(b"\0")[0].decode()
        return None, (prop, "hang" if rc is None else "crash", idx), list(struct.unpack_from("<%dQ" % n, raw, 96)), o
    res, at, tape, o = once()
    if res is not None and not any(r["failure"] and not r["failure"]["reproduced"] for r in res): return res
    prop, kind, idx = at
    log("MPI job: %s in %s case %d%s" % (kind, prop, idx, "; replaying" if res is None else ""))
    if res is None:
        def fails(t, to=60):
            rf = tmp / "cand.txt"; rf.write_text("prop %s\ntape %s\n" % (prop, " ".join(map(str, t))))
            rc, o2 = run_proc(mpi_cmd(j) + [binary, "--replay", rf], env, to, tmp)
            if rc == 2 and "no property" in o2: log("cannot replay", prop); sys.exit(2)
            return (rc is None if kind == "hang" else rc not in (0, None)), o2
        f = dict(kind=kind, reproduced=False, index=idx, msg="%s of the MPI job" % kind, desc="", log=o[-1500:], tape=tape,
                 sequence=False, seq_from=0, nworkers=1, shrink_runs=0)
        res = [dict(prop=prop, rule="", evaluations=idx + 1, nontrivial=0, distinct=0, discards=0, secs=0, labels={}, samples=[], failure=f)]
        if all(fails(tape)[0] for _ in range(3)):
            best, budget, t0 = list(tape), 60, time.time()
            ln = max(1, len(best) // 2)
            while ln >= 1 and budget > 0 and time.time() - t0 < 90:
                i = 0; prog = False
                while i < len(best) and budget > 0 and time.time() - t0 < 90:
                    for cand in (best[:i] + best[i + ln:], best[:i] + [0] * len(best[i:i + ln]) + best[i + ln:]):
                        if cand == best: continue
                        budget -= 1
                        if fails(cand, 20)[0]: best = cand; prog = True; break
                    else: i += ln
                if not prog: ln //= 2
            f.update(reproduced=True, tape=best, log=fails(best)[1][-3000:])
            return res
    # the case alone does not fail again: either it needs the cases before it, or the failure was not the code's
    res2, at2, _, _ = once()
    if at2 is None: return res2
    if at2 == at or (at2[0] == at[0] and "hang" not in (at[1], at2[1])):
        for r in res:
            if r["failure"]: r["failure"].update(reproduced=True, sequence=True, seq_from=0, nworkers=1, index=idx); r["failure"]["msg"] += " (after the cases before it)"
        return res
    log("MPI job: failed differently the second time: %s, then %s" % (at, at2))
    return res if res2 is None else res2

def known_findings():
    known = {}
    f = V / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            if l.startswith("known:"):
                kv = dict(x.split("=", 1) for x in l.split()[1:3])
                known[(kv["property"], kv["key"])] = l.split(None, 3)[3]
    return known

def check(pid, tier, seed):
    t0 = time.time()
    ck = CHECKS[pid]
    jobs = [j for j in ck.jobs if tier == "thorough" or not j.thorough_only]
    bdir = BUILD / pid
    if os.environ.get("VP_ONLY_VARIANT"): jobs = [j for j in jobs if j.variant == os.environ["VP_ONLY_VARIANT"]]
    per, viol, known_seen = [], [], []
    tmp = bdir / "tmp"
    try: bins = build_jobs(jobs, bdir, tier, seed)
    except DoesNotCompile as e:
        # the harnesses use what the documentation offers: a program of theirs that is no longer accepted is a failing case
        rd = V / "replays"; rd.mkdir(exist_ok=True); rp = rd / ("%s-compile.txt" % pid)
        rp.write_text("property %s\nkind compile\nseed %d\ntier %s\n" % (pid, seed, tier) + "".join("# %s\n" % l for l in str(e).splitlines()[:60]))
        log("a program that uses the documented interface is not accepted by the compiler:\n" + str(e)[:4000])
        viol.append(("compile", rp)); jobs = []; bins = {}
    tb = time.time() - t0
    known = known_findings()
    for ji, j in enumerate(jobs):
        if viol and tier == "quick" and time.time() - t0 > 200: log("stopping early after a violation"); break
        tag = "%s-%d" % (j.variant, ji)
        try: res = run_job(j, bins.get(ji), tier, seed, tmp, tag, max(10, (740 - (time.time() - t0)) / (len(jobs) - ji)))
        except NoAnswer as e:
            log(e)
            if viol: break
            sys.exit(2)
        for r in res:
            r["variant"] = j.variant; r["env"] = j.env; r["np"] = j.np
            per.append(r)
            f = r["failure"]
            if not f: continue
            if r["prop"].startswith("probe_"):
                key = r["prop"][6:]
                if (pid, key) in known:
                    known_seen.append((key, known[(pid, key)])); continue
            if not f["reproduced"]:
                print("UNREPRODUCED %s %s: %s" % (pid, r["prop"], f["msg"])); continue
            rd = V / "replays"; rd.mkdir(exist_ok=True)
            rp = rd / ("%s-%s-%s.txt" % (pid, r["prop"], tag))
            with open(rp, "w") as o:
                o.write("property %s\njob %d\nprop %s\nkind %s\n" % (pid, ck.jobs.index(j), r["prop"], f["kind"]))
                if j.gen: o.write("seed %d\ntier %s\n" % (seed, tier))
                if f.get("sequence"): o.write("sequence %d %d %d %d\n" % (f["seq_from"], f["nworkers"], f["index"], seed))
                else: o.write("tape %s\n" % " ".join(map(str, f["tape"])))
                for k in ("msg", "desc", "log"):
                    o.write("# --- %s\n" % k + "".join("# %s\n" % l for l in f[k].splitlines()))
            print("--- %s %s [%s]: %s" % (pid, r["prop"], j.variant, f["msg"]))
            if f["desc"]: print("    case: " + f["desc"].replace("\n", "\n          "))
            if f["log"]: print("    log: " + f["log"][:1500].replace("\n", "\n         "))
            viol.append((r["prop"], rp))
    for key, text in sorted(set(known_seen)): print("KNOWN-FINDING: property=%s %s" % (pid, text))
    real = [r for r in per if not r["prop"].startswith("probe_")]
    rules = []
    for r in real:
        x = "%s: %s" % (r["prop"], r["rule"])
        if x not in rules: rules.append(x)
    samples = []
    for r in real:
        for s in r["samples"][-1:]:
            x = dict(prop=r["prop"], case=s)
            if x not in samples and len(samples) < 40: samples.append(x)
    ev = dict(property=pid, tier=tier, seed=seed, level=ck.level,
              coverage=dict(evaluations=sum(r["evaluations"] for r in real), distinct_nontrivial=sum(r["distinct"] for r in real),
                            rule="; ".join(rules), samples=samples,
                            per_run=[dict(prop=r["prop"], variant=r["variant"], np=r["np"], env=r["env"], evaluations=r["evaluations"], nontrivial=r["nontrivial"],
                                          distinct=r["distinct"], discards=r["discards"], seconds=round(r["secs"], 2), classes=r["labels"]) for r in per]),
              assumptions=ck.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s, violations %d" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], tb, time.time() - t0, len(viol)))
    if os.environ.get("VP_VERBOSE"):
        for r in per:
            print("   %-34s %-5s n=%-7d nt=%-7d dist=%-7d disc=%-5d %.1fs %s" % (r["prop"], r["variant"], r["evaluations"], r["nontrivial"], r["distinct"], r["discards"], r["secs"],
                  " ".join("%s:%.1f%%" % (k, 100.0 * v / max(1, r["evaluations"])) for k, v in sorted(r["labels"].items()))))
    for prop, rp in viol: print("VIOLATION property=%s replay=%s" % (pid, rp))
    if not os.environ.get("VP_KEEP"): shutil.rmtree(bdir, ignore_errors=True)
    return 1 if viol else 0

def replay(path):
    head = {}
    for l in open(path):
        k, _, v = l.strip().partition(" ")
        head.setdefault(k, v)
    ck = CHECKS[head["property"]]; bdir = BUILD / ("replay-" + head["property"])
    tier, seed = head.get("tier", "quick"), int(head.get("seed", 1))
    if head["kind"] == "compile":
        try: build_jobs(ck.jobs, bdir, tier, seed); print("replay: everything compiles"); bad = False
        except DoesNotCompile as e: print(e); bad = True; print("VIOLATION property=%s replay=%s" % (head["property"], path))
        shutil.rmtree(bdir, ignore_errors=True)
        return 1 if bad else 0
    j = ck.jobs[int(head["job"])]
    if j.script:
        bdir.mkdir(parents=True, exist_ok=True)
        r = subprocess.run([sys.executable, str(V / "harness" / j.script), "--replay", str(path), "--repo", str(REPO), "--tmp", str(bdir)] + list(j.args), env=job_env(j, bdir))
        return r.returncode
    b = build_jobs([j], bdir, tier, seed)[0]
    rc, o = run_proc(mpi_cmd(j) + [b, "--replay", os.path.abspath(path), "--timeout", j.timeout], job_env(j, bdir), 900, bdir)
    print(o)
    shutil.rmtree(bdir, ignore_errors=True)
    if rc != 0: print("VIOLATION property=%s replay=%s" % (head["property"], path))
    return 1 if rc else 0

if __name__ == "__main__":
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
