"""Create and confirm a planted change: mkseed.py SPEC.py  (spec defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)

Works in a scratch copy of /repo; keeps the seed only when the stable tests pass with the change and the demo exits 0
without it and nonzero with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
tmp = tempfile.mkdtemp(prefix="seed_")
repo = os.path.join(tmp, "repo")
shutil.copytree("/repo", repo, symlinks=True)


def sh(cmd, cwd=repo, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


try:
    for path, old, new in spec["EDITS"]:
        p = os.path.join(repo, path)
        text = open(p).read()
        assert text.count(old) == 1, (path, text.count(old), old)
        open(p, "w").write(text.replace(old, new))
    diff = sh(["git", "diff"]).stdout
    out = os.path.join(ROOT, "seeded", spec["ID"])
    stage = os.path.join(tmp, "stage")
    os.makedirs(stage)
    open(os.path.join(stage, "patch.diff"), "w").write(diff)
    open(os.path.join(stage, "demo.py"), "w").write(
        "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + spec["DEMO"].lstrip("\n"))
    open(os.path.join(stage, "demo.sh"), "w").write(
        '#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(stage, "demo.sh"), 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(os.path.join(stage, "meta.json"), "w"), indent=1)
    clean = sh(["bash", os.path.join(stage, "demo.sh")], cwd="/repo")
    dirty = sh(["bash", os.path.join(stage, "demo.sh")])
    print("demo clean rc", clean.returncode, "| changed rc", dirty.returncode, dirty.stdout.strip()[-150:])
    if clean.returncode != 0:
        print(clean.stdout[-800:])
    t = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
           env={**os.environ, "PYTHONPATH": repo})
    where = sh(["/opt/venv/bin/python", "-c", "import dustmaker;print(dustmaker.__file__)"],
               env={**os.environ, "PYTHONPATH": repo}).stdout.strip()
    assert where.startswith(repo), where
    print("tests:", t.stdout.strip().splitlines()[-1])
    good = clean.returncode == 0 and dirty.returncode != 0 and t.returncode == 0
    if good:
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        print("kept", out)
    else:
        print("NOT KEPT")
        sys.exit(1)
finally:
    shutil.rmtree(tmp)
