#!/usr/bin/env python3
"""Mutation runner used while developing the checks (no check uses it).

muts.py lists edits of /repo's source with the property they break ("bug") or
the checks that must stay quiet ("same"). Each is applied to a scratch copy and
analysed there.  usage: mut.py [substring ...]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
M = []
def m(name, ids, kind, *edits):
    M.append((name, ids, kind, edits))
exec(open(os.path.join(here, "muts.py")).read())
for f in ("muts2.py", "muts3.py", "muts4.py", "muts5.py", "muts6.py"):
    exec(open(os.path.join(here, f)).read())
want = sys.argv[1:]
sel = [x for x in M if not want or any(w in x[0] or w in x[1].split(',') for w in want)]
if os.environ.get("MUTKIND"):
    sel = [x for x in sel if x[2] == os.environ["MUTKIND"]]
checker = os.environ.get("MUTCHK") or os.path.join(here, "..", ".build", "checker")
env0 = dict(os.environ)

def run(x):
    name, ids, kind, edits = x
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return (name, ids, kind, "EDIT-FAILED " + f + ": " + old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        files = sorted({e[0] for e in edits})
        subprocess.run(["gofmt", "-w"] + [os.path.join(repo, f) for f in files], capture_output=True)
        b = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; go vet -vettool= 2>/dev/null; go build ./proxy/... " ], cwd=repo, capture_output=True, text=True)
        if b.returncode != 0:
            return (name, ids, kind, "BUILD-FAILED " + b.stderr[:300])
        vd = os.path.join(d, "v")
        os.mkdir(vd)
        shutil.copy(os.path.join(here, "..", "known_findings.txt"), vd)
        env = dict(env0, VERIF_REPO=repo, VERIF_DIR=vd, GOMAXPROCS="3")
        if kind == "same" and os.environ.get("MUTALL"):
            ids = "all"
        r = subprocess.run([checker, ids], env=env, capture_output=True, text=True, timeout=900)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  [default]")]
        ok = (r.returncode == 1) if kind == "bug" else (r.returncode == 0)
        if kind == "bug" and ok and not any("VIOLATION property=" in l for l in r.stdout.splitlines()):
            ok = False
        msg = ("ok   " if ok else "FAIL ") + ("caught: " if r.returncode else "quiet ") + " | ".join(l.strip()[:230] for l in lines[:2]) + (r.stderr[-300:] if r.returncode > 1 else "")
        return (name, ids, kind, msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)

n = int(os.environ.get("MUTJ", "4"))
bad = 0
with ThreadPoolExecutor(n) as ex:
    for name, ids, kind, msg in ex.map(run, sel):
        if not msg.startswith("ok"):
            bad += 1
        print(f"{name:34} {ids:8} {kind:5} {msg}", flush=True)
print(len(sel), "mutants,", bad, "unexpected")
