#!/usr/bin/env python3
"""coverage.py [IDs...]: run quick checks built with gcov and list the lines of /repo/src which none of them executes.
A tool for development; no check uses it. Needs VP_BUILD to be a scratch directory."""
import json, os, pathlib, subprocess, sys, gzip, collections
V = pathlib.Path(__file__).resolve().parent.parent
B = pathlib.Path(os.environ["VP_BUILD"]); repo = os.environ.get("VP_REPO", "/repo")
ids = sys.argv[1:]
hit = collections.defaultdict(dict)
for i in ids:
    subprocess.run(["rm", "-rf", str(B)])
    e = dict(os.environ, VP_COV="1", VP_KEEP="1")
    r = subprocess.run([sys.executable, str(V / "run.py"), i, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(i, r.returncode, r.stdout[-300:] if r.returncode else "", file=sys.stderr, flush=True)
    for g in B.rglob("*.gcda"):
        o = subprocess.run(["gcov", "--json-format", "--stdout", str(g)], cwd=str(g.parent), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        for l in o.splitlines():
            for f in json.loads(l)["files"]:
                if not f["file"].startswith(repo + "/src"): continue
                h = hit[f["file"][len(repo) + 1:]]
                for x in f["lines"]: h[x["line_number"]] = h.get(x["line_number"], 0) + x["count"]
for f in sorted(hit):
    h = hit[f]; miss = sorted(k for k in h if not h[k])
    print("%s: %d of %d lines executed" % (f, len(h) - len(miss), len(h)))
    src = open(repo + "/" + f).read().split("\n")
    for k in miss: print("  %5d  %s" % (k, src[k - 1]))
