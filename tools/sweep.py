"""Run checks against planted changes in scratch copies: sweep.py [-a] [seed ids...]   (-a: every check, not only its own)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
props = [c["property"] for c in man["checks"]]
seeds = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for s in seeds:
    d = os.path.join(ROOT, "seeded", s)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="sweep_")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        if r.returncode:
            print(s, "PATCH DOES NOT APPLY")
            continue
        res = []
        for p in props if every else [meta["property"]]:
            t = time.time()
            r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "run_check.py", p, "quick"], cwd=ROOT,
                               env={**os.environ, "DUSTMAKER_REPO": repo}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            if hit or not every:
                res.append("%s:%s(%.0fs)" % (p, "CAUGHT" if hit else "missed rc%d" % r.returncode, time.time() - t))
        print(s, "[%s]" % meta["property"], " ".join(res), flush=True)
    finally:
        shutil.rmtree(tmp)
