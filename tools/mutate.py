"""Mutation sweep (development aid, not a check).

mutate.py OUT.jsonl [--files a.py,b.py] [--per N] [--jobs N] [--seed S]: applies small edits to scratch copies of the
code, skips those the repository's tests notice, runs the checks that execute the edited function (as recorded in the
evidence files) and records which one, if any, reports a violation."""

import argparse
import ast
import copy
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

PY = "/opt/veriftools/pyvenv/bin/python"


class Sites(ast.NodeVisitor):
    """Collects (function, description, mutator) triples."""

    def __init__(self):
        self.stack = []
        self.out = []
        self.skip = 0

    def fn(self):
        return ".".join(self.stack)

    def add(self, node, desc, edit):
        self.out.append((self.fn(), getattr(node, "lineno", 0), desc, edit))

    def visit_FunctionDef(self, node):
        if node.name in ("__repr__", "__str__", "setup_parser", "run_utility"):
            return
        self.stack.append(node.name)
        for d in node.body:
            self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        for d in node.body:
            self.visit(d)
        self.stack.pop()

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Raise(self, node):
        def edit(n):
            n.__class__ = ast.Pass
            n._fields = ()
        self.add(node, "raise -> pass", edit)

    def visit_Assert(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, (ast.Call,)):
            self.add(node, "drop call", _to_pass)
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.stack and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, "drop assignment", _to_pass)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "drop augmented assignment", _to_pass)
        self.generic_visit(node)

    def visit_Compare(self, node):
        swaps = {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,),
                 ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
        for i, op in enumerate(node.ops):
            for new in swaps.get(type(op), ()):
                self.add(node, "%s -> %s" % (type(op).__name__, new.__name__), lambda n, i=i, new=new: n.ops.__setitem__(i, new()))
        self.generic_visit(node)

    def visit_BinOp(self, node):
        swaps = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.FloorDiv,), ast.FloorDiv: (ast.Mult, ast.Mod), ast.Mod: (ast.FloorDiv,), ast.LShift: (ast.RShift,),
                 ast.RShift: (ast.LShift,), ast.BitAnd: (ast.BitOr,), ast.BitOr: (ast.BitAnd, ast.BitXor), ast.BitXor: (ast.BitOr,), ast.Div: (ast.Mult, ast.FloorDiv)}
        for new in swaps.get(type(node.op), ()):
            self.add(node, "%s -> %s" % (type(node.op).__name__, new.__name__), lambda n, new=new: setattr(n, "op", new()))
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        new = ast.Or if isinstance(node.op, ast.And) else ast.And
        self.add(node, "and/or", lambda n: setattr(n, "op", new()))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, "drop not", lambda n: _become(n, n.operand))
        if isinstance(node.op, ast.USub):
            self.add(node, "drop minus", lambda n: _become(n, n.operand))
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.add(node, "%r -> %r" % (v, not v), lambda n: setattr(n, "value", not n.value))
        elif isinstance(v, int):
            for d in (1, -1):
                self.add(node, "%r -> %r" % (v, v + d), lambda n, d=d: setattr(n, "value", n.value + d))
        elif isinstance(v, float):
            self.add(node, "%r -> %r" % (v, v + 1), lambda n: setattr(n, "value", n.value + 1))
        elif isinstance(v, (str, bytes)) and self.stack is not None and len(v):
            if isinstance(v, str) and (" " in v or "%" in v):
                return
            new = v[:-1] + ("q" if isinstance(v, str) else b"q")
            self.add(node, "%r -> %r" % (v, new), lambda n, new=new: setattr(n, "value", new))

    def visit_JoinedStr(self, node):
        pass

    def visit_If(self, node):
        self.add(node, "negate if", lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, "negate conditional", lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, "continue -> break", lambda n: setattr(n, "__class__", ast.Break))

    def visit_Break(self, node):
        self.add(node, "break -> continue", lambda n: setattr(n, "__class__", ast.Continue))

    def visit_Call(self, node):
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            for i in range(len(node.args) - 1):
                if ast.dump(node.args[i]) != ast.dump(node.args[i + 1]):
                    def edit(n, i=i):
                        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                    self.add(node, "swap arguments %d,%d" % (i, i + 1), edit)
        if isinstance(node.func, ast.Name) and node.func.id in ("round", "int", "abs", "sorted", "list", "dict", "tuple") and len(node.args) == 1:
            self.add(node, "drop %s()" % node.func.id, lambda n: _become(n, n.args[0]))
        if isinstance(node.func, ast.Name) and node.func.id in ("min", "max"):
            self.add(node, "min/max", lambda n: setattr(n.func, "id", "max" if n.func.id == "min" else "min"))
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "deepcopy", "align", "sort"):
            pass
        self.generic_visit(node)

    def visit_Tuple(self, node):
        if len(node.elts) == 2 and isinstance(node.ctx, ast.Load) and ast.dump(node.elts[0]) != ast.dump(node.elts[1]):
            self.add(node, "swap pair", lambda n: n.elts.reverse())
        self.generic_visit(node)


def _to_pass(n):
    n.__class__ = ast.Pass
    for f in list(n._fields):
        if hasattr(n, f):
            delattr(n, f)


def _become(n, other):
    n.__class__ = other.__class__
    for f in list(n.__dict__):
        if f not in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            del n.__dict__[f]
    n.__dict__.update({k: v for k, v in other.__dict__.items()})


def mutants(path, per, rnd):
    src = open(path).read()
    s = Sites()
    s.visit(ast.parse(src))
    groups = {}
    for i, (fn, line, desc, _) in enumerate(s.out):
        groups.setdefault(fn, []).append(i)
    for fn, idx in groups.items():
        rnd.shuffle(idx)
        n = per if fn and fn[0].islower() or "." in fn else per
        n = max(per, len(idx) // 5)
        for i in idx[:n]:
            tree = ast.parse(src)
            t = Sites()
            # keep a handle on the nodes of the fresh tree
            nodes = []
            orig = t.add
            t.add = lambda node, desc, edit: (nodes.append((node, edit)), orig(node, desc, edit))
            t.visit(tree)
            node, edit = nodes[i]
            line = getattr(node, "lineno", 0)
            try:
                edit(node)
                text = ast.unparse(ast.fix_missing_locations(tree))
                compile(text, path, "exec")
            except Exception:
                continue
            yield fn, line, s.out[i][2], text


def module_name(rel):
    return rel[:-3].replace("/", ".")


def worker(q, out, base, wid, wall):
    root = "/tmp/mut/w%d" % wid
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree("/repo", root + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(base, root + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
    while True:
        item = q.get()
        if item is None:
            return
        rel, fn, line, desc, text, checks = item
        p = os.path.join(root, "repo", rel)
        keep = open(p).read()
        open(p, "w").write(text)
        rec = {"file": rel, "fn": fn, "line": line, "desc": desc}
        env = {**os.environ, "PYTHONPATH": root + "/repo", "DUSTMAKER_REPO": root + "/repo", "VERIF_JOBS": "1", "VERIF_WALL": str(wall), "PYTHONDONTWRITEBYTECODE": "1"}
        try:
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=root + "/repo", env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90).returncode
            except subprocess.TimeoutExpired:
                t = 99
            if t != 0:
                rec["by"] = "tests"
            else:
                rec["by"] = None
                rec["ran"] = []
                t0 = time.time()
                for c in checks:
                    try:
                        r = subprocess.run([PY, "run_check.py", c, "quick"], cwd=root + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                        rc, txt = r.returncode, r.stdout.decode(errors="replace")
                    except subprocess.TimeoutExpired:
                        rc, txt = 98, ""
                    rec["ran"].append([c, rc])
                    if rc == 1 and "VIOLATION property=" in txt:
                        rec["by"] = c
                        rec["msg"] = txt.strip().splitlines()[-1][:160]
                        break
                rec["t"] = round(time.time() - t0, 1)
        finally:
            open(p, "w").write(keep)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--per", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--wall", type=int, default=300)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--base", default="/verif")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    cover, times = {}, {}
    for e in glob.glob(a.base + "/evidence/C[0-9][0-9].json"):
        d = json.load(open(e))
        c = d["property"]
        times[c] = d["wall_s"]
        for f in d["coverage"]["functions_encoded"]:
            cover.setdefault(f, []).append(c)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["fn"], d["line"], d["desc"]))
    items = []
    os.chdir("/repo")
    files = a.files.split(",") if a.files else sorted(glob.glob("dustmaker/*.py") + glob.glob("dustmaker/cmd/*.py"))
    for rel in files:
        if rel.endswith(("__init__.py", "__main__.py", "main.py", "common.py")):
            continue
        mod = module_name(rel)
        for fn, line, desc, text in mutants(rel, a.per, rnd):
            if (rel, fn, line, desc) in done:
                continue
            key = mod + ":" + fn
            checks = set()
            for f, cs in cover.items():
                if f == key or f.startswith(key + "."):
                    checks.update(cs)
            top = fn.split(".")[0]
            if not checks:
                for f, cs in cover.items():
                    if f.startswith(mod + ":" + top) if top else f.startswith(mod + ":"):
                        checks.update(cs)
            if not checks:
                for f, cs in cover.items():
                    if f.startswith(mod + ":"):
                        checks.update(cs)
            items.append((rel, fn, line, desc, text, sorted(checks, key=lambda c: times.get(c, 9))))
    rnd.shuffle(items)
    if a.limit:
        items = items[:a.limit]
    print(len(items), "mutants", flush=True)
    q = mp.Queue()
    for i in items:
        q.put(i)
    ps = [mp.Process(target=worker, args=(q, a.out, a.base, w, a.wall)) for w in range(a.jobs)]
    for _ in ps:
        q.put(None)
    for p in ps:
        p.start()
    for p in ps:
        p.join()


main()
