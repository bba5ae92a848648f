#!/usr/bin/env python3
"""Runs a check against each planted bug in a scratch copy (no check uses it).
usage: seedrun.py [-a] [ID...]   -a: all checks instead of the bug's own"""
import os, sys, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
ids = args or sorted(os.listdir(V + "/seeded"))
def run(i):
    s = V + "/seeded/" + i
    prop = json.load(open(s + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="sr-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        r = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode: return i, prop, "NO-APPLY " + r.stderr
        os.mkdir(d + "/v"); shutil.copy(V + "/known_findings.txt", d + "/v")
        r = subprocess.run([V + "/.build/checker", "all" if "-a" in sys.argv else prop], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_DIR=d + "/v", GOMAXPROCS="3"), capture_output=True, text=True)
        vs = [l for l in r.stdout.splitlines() if "VIOLATION property=" in l]
        ls = [l.strip()[:260] for l in r.stdout.splitlines() if l.startswith("  [default]")]
        ok = r.returncode == 1 and any("property=" + prop + " " in l for l in vs)
        return i, prop, ("caught " if ok else "MISSED rc=%d " % r.returncode) + (" ".join(sorted({l.split("property=")[1].split()[0] for l in vs})) if "-a" in sys.argv else "") + " " + " | ".join(ls[:2]) + r.stderr[-200:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for i, p, m in ex.map(run, ids):
        print(f"{i:24} {p} {m}", flush=True)
