"""Source instrumentation.

The dustmaker modules (and the harness modules) are parsed from their current
source text, a small AST rewrite is applied and the result is executed by
CPython.  The rewrite does not change what the code computes on ordinary
values; it routes the operations that CPython would force to a concrete truth
value, hash or index through hooks (symdust.models) that understand symbolic
values, and journals stores so that a branch can be evaluated speculatively
and merged.
"""

import ast
import importlib.abc
import importlib.machinery
import os
import sys

_DIRECT = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
_CTRL = (
    ast.Return, ast.Break, ast.Continue, ast.Raise, ast.For, ast.While, ast.With,
    ast.Try, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Delete,
    ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Match,
)


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def _lam(body):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body,
    )


def _no_lambda(*nodes):
    """May the expression not be moved into a lambda?"""
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(n, ast.Name) and n.id in ("super", "__class__"):
                return True
    return False


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, summarise=True, max_depth=6):
        self.mod = modname
        self.scope = []  # "f" / "c"
        self.names = []
        self.tmp = 0
        self.depth = 0
        self.summarise = summarise
        self.max_depth = max_depth

    def _tmp(self, p="t"):
        self.tmp += 1
        return "__sym_%s%d" % (p, self.tmp)

    def in_class(self):
        return bool(self.scope) and self.scope[-1] == "c"

    # ---- expressions --------------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _DIRECT:
            if f.id == "super":
                return node
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Name) and len(node.args) == 1 and not node.keywords:
            self._fold_filter(f.id, node)
            f = node.func
        if (
            isinstance(f, ast.Name)
            and f.id in ("any", "all")
            and len(node.args) == 1
            and not node.keywords
            and not self.in_class()
            and not _no_lambda(node.args[0])
        ):
            arg = self.visit(node.args[0])
            return _call("__symanyall__", ast.Name(id=f.id, ctx=ast.Load()), _lam(arg))
        func = self.visit(f)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.Call(
            func=ast.Name(id="__symcall__", ctx=ast.Load()), args=[func] + args, keywords=kws
        )

    def _fold_filter(self, name, node):
        """sum(e for x in s if c) is sum(e if c else 0 for x in s), and so on."""
        arg = node.args[0]
        if not isinstance(arg, (ast.GeneratorExp, ast.ListComp)) or name not in ("sum", "any", "all", "len"):
            return
        ifs = arg.generators[-1].ifs
        if not ifs or _no_lambda(arg.elt, *ifs):
            return
        if name == "len":
            if not isinstance(arg, ast.ListComp) or len(arg.generators) != 1:
                return
            if not isinstance(arg.elt, (ast.Name, ast.Constant)):
                return
        cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)
        arg.generators[-1].ifs = []
        if name == "sum":
            arg.elt = ast.IfExp(test=cond, body=arg.elt, orelse=ast.Constant(value=0))
        elif name == "len":
            arg.elt = ast.IfExp(test=cond, body=ast.Constant(value=1), orelse=ast.Constant(value=0))
            node.func = ast.copy_location(ast.Name(id="__symsum__", ctx=ast.Load()), node.func)
        elif name == "any":
            arg.elt = ast.BoolOp(op=ast.And(), values=[cond, arg.elt])
        else:
            arg.elt = ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=cond), arg.elt])
        ast.fix_missing_locations(ast.copy_location(arg.elt, node))

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            return _call("__symnot__", self.visit_test(node.operand))
        node.operand = self.visit(node.operand)
        return node

    def visit_test(self, node):
        """An expression of which only the truth value is used."""
        if isinstance(node, ast.BoolOp) and not (
            self.in_class() or _no_lambda(*node.values[1:])
        ):
            vals = [self.visit_test(v) for v in node.values]
            name = "__symand__" if isinstance(node.op, ast.And) else "__symor__"
            res = vals[-1]
            for v in reversed(vals[:-1]):
                res = _call(name, v, _lam(res))
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return _call("__symnot__", self.visit_test(node.operand))
        if isinstance(node, ast.Compare):
            return self.visit(node)
        return _call("__symtest__", self.visit(node))

    def visit_Assert(self, node):
        node.test = self.visit_test(node.test)
        if node.msg is not None:
            node.msg = self.visit(node.msg)
        return node

    def visit_BoolOp(self, node):
        vals = [self.visit(v) for v in node.values]
        if self.in_class() or _no_lambda(*node.values[1:]):
            node.values = vals
            return node
        name = "__symand__" if isinstance(node.op, ast.And) else "__symor__"
        res = vals[-1]
        for v in reversed(vals[:-1]):
            res = _call(name, v, _lam(res))
        return res

    def visit_IfExp(self, node):
        if self.in_class() or _no_lambda(node.body, node.orelse):
            self.generic_visit(node)
            return node
        return _call(
            "__symifexp__",
            self.visit_test(node.test),
            _lam(self.visit(node.body)),
            _lam(self.visit(node.orelse)),
        )

    def visit_Compare(self, node):
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        if len(comps) > 1 and (self.in_class() or _no_lambda(*node.comparators)):
            node.left, node.comparators = left, comps
            return node
        if len(comps) == 1:
            return self._cmp1(left, node.ops[0], comps[0])
        # a < b < c: each operand evaluated once, left to right
        names = [self._tmp("c") for _ in comps]
        # lambda based expansion: __symchain__((op, lambda: operand), ...)
        parts = []
        for op, c in zip(node.ops, comps):
            parts.append(
                ast.Tuple(
                    elts=[ast.Constant(value=type(op).__name__), _lam(c)], ctx=ast.Load()
                )
            )
        del names
        return _call("__symchain__", left, *parts)

    def _cmp1(self, a, op, b):
        if isinstance(op, ast.Eq):
            return _call("__symeq__", a, b)
        if isinstance(op, ast.NotEq):
            return _call("__symne__", a, b)
        if isinstance(op, ast.In):
            return _call("__symin__", a, b)
        if isinstance(op, ast.NotIn):
            return _call("__symnot__", _call("__symin__", a, b))
        if isinstance(op, ast.Is):
            return _call("__symis__", a, b)
        if isinstance(op, ast.IsNot):
            return _call("__symnot__", _call("__symis__", a, b))
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            s = node.slice
            if isinstance(s, ast.Constant) and not isinstance(s.value, (str, bytes)):
                return node
            return _call("__symgetitem__", node.value, s)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return _call("__symdict__", ast.List(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return _call(
            "__symdict__", ast.ListComp(elt=pair, generators=node.generators)
        )

    def visit_BinOp(self, node):
        strmod = (
            isinstance(node.op, ast.Mod)
            and isinstance(node.left, ast.Constant)
            and isinstance(node.left.value, str)
        )
        self.generic_visit(node)
        if strmod:
            return _call("__symfmt__", node.left, node.right)
        return node

    # ---- statements ---------------------------------------------------------
    def _body(self, stmts, loop=False):
        """Transform a statement list."""
        if loop:
            stmts = self._norm_continue(stmts)
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def _norm_continue(self, stmts):
        """`if c: continue; rest` -> `if not c: rest` (same meaning)."""
        for i, s in enumerate(stmts):
            if (
                isinstance(s, ast.If)
                and not s.orelse
                and len(s.body) == 1
                and isinstance(s.body[0], ast.Continue)
                and i + 1 < len(stmts)
            ):
                rest = self._norm_continue(stmts[i + 1:])
                test = ast.UnaryOp(op=ast.Not(), operand=s.test)
                new = ast.If(test=test, body=rest, orelse=[])
                ast.copy_location(new, s)
                return stmts[:i] + [new]
        return stmts

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self._body(node.body, loop=True)
        node.orelse = self._body(node.orelse) if node.orelse else []
        return node

    def visit_While(self, node):
        node.test = self.visit_test(node.test)
        node.body = [ast.Expr(value=_call("__symtick__"))] + self._body(node.body, loop=True)
        node.orelse = self._body(node.orelse) if node.orelse else []
        return node

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) != 1:
            t = self._tmp()
            out = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=value)]
            for tgt in node.targets:
                out.extend(self._store(tgt, ast.Name(id=t, ctx=ast.Load())))
            return [ast.copy_location(o, node) for o in out]
        out = self._store(node.targets[0], value)
        return [ast.copy_location(o, node) for o in out]

    def _store(self, tgt, value):
        """Statements storing `value` (already transformed) into tgt."""
        if self.in_class() or not self.scope:
            return [ast.Assign(targets=[self._vt(tgt)], value=value)]
        if isinstance(tgt, ast.Subscript):
            if isinstance(tgt.slice, ast.Slice):
                return [
                    ast.Expr(value=_call("__symimpure__")),
                    ast.Assign(targets=[self._vt(tgt)], value=value),
                ]
            return [
                ast.Expr(
                    value=_call(
                        "__symsetitem__", value, self.visit(tgt.value), self.visit(tgt.slice)
                    )
                )
            ]
        if isinstance(tgt, ast.Attribute):
            if tgt.attr.startswith("__") and not tgt.attr.endswith("__"):
                return [
                    ast.Expr(value=_call("__symimpure__")),
                    ast.Assign(targets=[self._vt(tgt)], value=value),
                ]
            return [
                ast.Expr(
                    value=_call(
                        "__symsetattr__", value, self.visit(tgt.value), ast.Constant(value=tgt.attr)
                    )
                )
            ]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            post = []
            new = self._split_tuple(tgt, post)
            out = [ast.Assign(targets=[new], value=value)]
            for t, name in post:
                out.extend(self._store(t, ast.Name(id=name, ctx=ast.Load())))
            return out
        return [ast.Assign(targets=[tgt], value=value)]

    def _split_tuple(self, tgt, post):
        elts = []
        for e in tgt.elts:
            if isinstance(e, (ast.Subscript, ast.Attribute)):
                name = self._tmp("u")
                post.append((e, name))
                elts.append(ast.Name(id=name, ctx=ast.Store()))
            elif isinstance(e, (ast.Tuple, ast.List)):
                elts.append(self._split_tuple(e, post))
            else:
                elts.append(e)
        return ast.Tuple(elts=elts, ctx=ast.Store())

    def _vt(self, tgt):
        """Visit the load parts of a store target that is kept as is."""
        if isinstance(tgt, ast.Subscript):
            tgt.value = self.visit(tgt.value)
            tgt.slice = self.visit(tgt.slice)
        elif isinstance(tgt, ast.Attribute):
            tgt.value = self.visit(tgt.value)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            tgt.elts = [self._vt(e) for e in tgt.elts]
        return tgt

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        op = ast.Constant(value=type(node.op).__name__)
        tgt = node.target
        if isinstance(tgt, ast.Name):
            new = ast.Assign(
                targets=[ast.Name(id=tgt.id, ctx=ast.Store())],
                value=_call("__symiop__", op, ast.Name(id=tgt.id, ctx=ast.Load()), value),
            )
            return ast.copy_location(new, node)
        if isinstance(tgt, ast.Attribute) and not (
            tgt.attr.startswith("__") and not tgt.attr.endswith("__")
        ):
            o = self._tmp("o")
            st = [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(tgt.value)),
                ast.Expr(
                    value=_call(
                        "__symsetattr__",
                        _call(
                            "__symiop__",
                            op,
                            ast.Attribute(
                                value=ast.Name(id=o, ctx=ast.Load()), attr=tgt.attr, ctx=ast.Load()
                            ),
                            value,
                        ),
                        ast.Name(id=o, ctx=ast.Load()),
                        ast.Constant(value=tgt.attr),
                    )
                ),
            ]
            return [ast.copy_location(s, node) for s in st]
        if isinstance(tgt, ast.Subscript) and not isinstance(tgt.slice, ast.Slice):
            o, k = self._tmp("o"), self._tmp("k")
            ld = lambda n: ast.Name(id=n, ctx=ast.Load())
            st = [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(tgt.value)),
                ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=self.visit(tgt.slice)),
                ast.Expr(
                    value=_call(
                        "__symsetitem__",
                        _call("__symiop__", op, _call("__symgetitem__", ld(o), ld(k)), value),
                        ld(o),
                        ld(k),
                    )
                ),
            ]
            return [ast.copy_location(s, node) for s in st]
        node.value = value
        node.target = self._vt(tgt)
        return [ast.copy_location(ast.Expr(value=_call("__symimpure__")), node), node]

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        value = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            node.value = value
            return node
        return [ast.copy_location(o, node) for o in self._store(node.target, value)]

    def visit_Delete(self, node):
        self.generic_visit(node)
        if self.in_class() or not self.scope:
            return node
        return [ast.copy_location(ast.Expr(value=_call("__symimpure__")), node), node]

    def _mergeable(self, stmts, loop=False):
        """May the statement list be run speculatively (no control transfer
        out of it other than by exception)?"""
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Raise,
                              ast.Assert)):
                for n in ast.walk(s):
                    if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                        return False
            elif isinstance(s, ast.If):
                if _no_lambda(s.test):
                    return False
                if not self._mergeable(s.body, loop) or not self._mergeable(s.orelse, loop):
                    return False
            elif isinstance(s, (ast.For, ast.While)):
                if not self._mergeable(s.body, True) or not self._mergeable(s.orelse, loop):
                    return False
            elif isinstance(s, (ast.Break, ast.Continue)):
                if not loop:
                    return False
            elif not isinstance(s, ast.Pass):
                return False
        return True

    def _assigned_names(self, stmts):
        names = []

        def rec(n):
            if isinstance(
                n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)
            ):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id not in names:
                    names.append(n.id)
            for c in ast.iter_child_nodes(n):
                rec(c)

        for s in stmts:
            rec(s)
        return names

    def visit_If(self, node):
        """An if statement whose branches only compute becomes

            t = test
            j = __symif__(t, site)
            if j.sym: <save assigned names>
            for d in j.passes():
                if j.sym: <restore assigned names>
                try:
                    if d: body
                    else: orelse
                except BaseException as e: j.fail(e)   # re-raises unless speculating
                else:
                    if j.sym: j.done((names...))
            if j.merged: (names...) = j.result

        A decided test makes exactly one pass."""
        import copy

        can = (
            self.scope
            and self.scope[-1] == "f"
            and self.depth < self.max_depth
            and self._mergeable(node.body)
            and self._mergeable(node.orelse)
        )
        if not can:
            node.test = self.visit_test(node.test)
            node.body = self._body(node.body)
            node.orelse = self._body(node.orelse) if node.orelse else []
            return node
        names = self._assigned_names(node.body + node.orelse)
        test = self.visit_test(node.test)
        self.depth += 1
        body = self._body(node.body)
        orelse = self._body(node.orelse) if node.orelse else []
        self.depth -= 1
        t, j, d, e = self._tmp("m"), self._tmp("j"), self._tmp("d"), self._tmp("e")
        ld = lambda n: ast.Name(id=n, ctx=ast.Load())
        st = lambda n: ast.Name(id=n, ctx=ast.Store())

        def attr(n, a):
            return ast.Attribute(value=ld(n), attr=a, ctx=ast.Load())

        saves, restores = [], []
        for n in names:
            s = self._tmp("s")
            saves.append(
                ast.Try(
                    body=[ast.Assign(targets=[st(s)], value=ld(n))],
                    handlers=[
                        ast.ExceptHandler(
                            type=ld("NameError"),
                            name=None,
                            body=[ast.Assign(targets=[st(s)], value=ld("__symunbound__"))],
                        )
                    ],
                    orelse=[],
                    finalbody=[],
                )
            )
            restores.append(
                ast.If(
                    test=ast.Compare(
                        left=ld(s), ops=[ast.IsNot()], comparators=[ld("__symunbound__")]
                    ),
                    body=[ast.Assign(targets=[st(n)], value=ld(s))],
                    orelse=[
                        ast.Assign(targets=[st(n)], value=ast.Constant(value=None)),
                        ast.Delete(targets=[ast.Name(id=n, ctx=ast.Del())]),
                    ],
                )
            )
        tup = ast.Tuple(elts=[ld(n) for n in names], ctx=ast.Load())
        done = ast.If(
            test=attr(j, "live"),
            body=[ast.Expr(value=ast.Call(func=attr(j, "done"), args=[tup], keywords=[]))],
            orelse=[],
        )
        guard = ast.Try(
            body=[ast.If(test=ld(d), body=body, orelse=orelse), done],
            handlers=[
                ast.ExceptHandler(
                    type=ld("BaseException"),
                    name=e,
                    body=[
                        ast.If(
                            test=attr(j, "sym"),
                            body=[
                                ast.Expr(
                                    value=ast.Call(func=attr(j, "fail"), args=[ld(e)], keywords=[])
                                )
                            ],
                            orelse=[ast.Raise()],
                        )
                    ],
                )
            ],
            orelse=[],
            finalbody=[],
        )
        loop_body = []
        if names:
            loop_body.append(ast.If(test=attr(j, "sym"), body=restores, orelse=[]))
        loop_body.append(guard)
        out = [
            ast.Assign(targets=[st(t)], value=test),
            ast.Assign(
                targets=[st(j)],
                value=_call(
                    "__symif__", ld(t), ast.Constant(value="%s:%d" % (self.mod, node.lineno))
                ),
            ),
        ]
        if names:
            out.append(ast.If(test=attr(j, "sym"), body=saves, orelse=[]))
        out.append(
            ast.For(
                target=st(d),
                iter=ast.Call(func=attr(j, "passes"), args=[], keywords=[]),
                body=loop_body,
                orelse=[],
            )
        )
        if names:
            out.append(
                ast.If(
                    test=attr(j, "merged"),
                    body=[
                        ast.Assign(
                            targets=[ast.Tuple(elts=[st(n) for n in names], ctx=ast.Store())],
                            value=attr(j, "result"),
                        )
                    ],
                    orelse=[],
                )
            )
        return [ast.copy_location(o, node) for o in out]

    # ---- definitions --------------------------------------------------------
    def _candidate(self, node):
        """Small function with early returns whose calls may be merged."""
        if not self.summarise:
            return False
        has = loops = False
        count = 0
        for n in ast.walk(node):
            if isinstance(
                n,
                (
                    ast.While, ast.With, ast.Try, ast.Yield, ast.YieldFrom, ast.Await,
                    ast.Global, ast.Nonlocal, ast.Delete, ast.Lambda, ast.ClassDef, ast.Match,
                ),
            ):
                return False
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not node:
                return False
            if isinstance(n, ast.stmt):
                count += 1
            if isinstance(n, ast.For):
                loops = True
            if isinstance(n, ast.If):
                for s in n.body + n.orelse:
                    if isinstance(s, ast.Return):
                        has = True
        return has and count <= (12 if loops else 40)

    def _norm_return(self, node):
        """`if c: ...; return a` / `return b` at the end of a function become
        assignments followed by one return, so that they can be merged."""
        import copy

        stmts = node.body

        def has_return(s):
            return any(isinstance(n, ast.Return) for n in ast.walk(s))

        def tail(ss):
            for k, s in enumerate(ss):
                if isinstance(s, ast.Return):
                    if s.value is not None and _no_lambda(s.value):
                        return False
                    return k == len(ss) - 1
                if isinstance(s, ast.If):
                    if _no_lambda(s.test) or not tail(s.body) or not tail(s.orelse):
                        return False
                elif not self._mergeable([s]) or isinstance(s, (ast.For, ast.While)):
                    return False
            return True

        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return
        start = next((i for i, s in enumerate(stmts) if isinstance(s, ast.If) and has_return(s)), None)
        while start is not None and (len(stmts) - start > 4 or not tail(stmts[start:])):
            start = next(
                (i for i, s in enumerate(stmts) if i > start and isinstance(s, ast.If) and has_return(s)), None
            )
        if start is None:
            return
        ret = self._tmp("r")

        def put(value, at):
            new = ast.Assign(targets=[ast.Name(id=ret, ctx=ast.Store())], value=value or ast.Constant(value=None))
            return ast.copy_location(new, at)

        def conv(ss, at):
            out = []
            for k, s in enumerate(ss):
                if isinstance(s, ast.Return):
                    return out + [put(s.value, s)]
                if isinstance(s, ast.If) and has_return(s):
                    rest = ss[k + 1:]
                    new = ast.If(
                        test=s.test,
                        body=conv(s.body + copy.deepcopy(rest), s),
                        orelse=conv(s.orelse + rest, s),
                    )
                    return out + [ast.copy_location(new, s)]
                out.append(s)
            return out + [put(None, at)]

        last = stmts[-1]
        final = ast.copy_location(ast.Return(value=ast.Name(id=ret, ctx=ast.Load())), last)
        node.body = stmts[:start] + conv(stmts[start:], last) + [final]

    def visit_FunctionDef(self, node):
        cand = self._candidate(node)
        if not cand and self.summarise:
            self._norm_return(node)
        node.decorator_list = [
            _call("__symdeco__", self.visit(d)) for d in node.decorator_list
        ]
        # defaults are evaluated in the enclosing scope
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.scope.append("f")
        self.names.append(node.name)
        saved = self.depth
        self.depth = 0
        qual = ".".join(self.names)
        body = self._body(node.body)
        first = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            first = 1
        enter = ast.Expr(value=_call("__symenter__", ast.Constant(value=self.mod + ":" + qual)))
        body.insert(first, enter)
        node.body = body
        self.depth = saved
        self.names.pop()
        self.scope.pop()
        if cand:
            node.decorator_list.append(ast.Name(id="__symsummary__", ctx=ast.Load()))
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.scope.append("f")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [_call("__symdeco__", self.visit(d)) for d in node.decorator_list]
        self.scope.append("c")
        self.names.append(node.name)
        node.body = self._body(node.body)
        self.names.pop()
        self.scope.pop()
        return node

    def visit_ListComp(self, node):
        return self._comp(node)

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def _comp(self, node):
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        node.body = self._body(node.body)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        node.finalbody = self._body(node.finalbody) if node.finalbody else []
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self._body(node.body)
        return node


def transform_source(src, filename, modname):
    for depth in (6, 4, 2, 1, 0):
        # merged branches are nested blocks, of which CPython allows 20
        tree = ast.parse(src, filename)
        tr = Transformer(modname, max_depth=depth)
        tree.body = tr._body(tree.body)
        ast.fix_missing_locations(tree)
        try:
            return compile(tree, filename, "exec")
        except SyntaxError as exc:
            if depth == 0 or "nested" not in str(exc):
                raise


class SymLoader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import models

        with open(self.path, "r", encoding="utf-8") as f:
            src = f.read()
        code = transform_source(src, self.path, self.name)
        module.__dict__.update(models.HOOKS)
        exec(code, module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    """Loads dustmaker.* (and harness modules) instrumented."""

    def __init__(self, roots):
        self.roots = roots  # package name -> directory containing it
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, is_pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            fn, is_pkg = base + ".py", False
        else:
            return None
        self.loaded.append(fn)
        spec = importlib.machinery.ModuleSpec(
            name, SymLoader(name, fn, is_pkg), origin=fn, is_package=is_pkg
        )
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [base]
        return spec


def install(roots):
    finder = SymFinder(roots)
    sys.meta_path.insert(0, finder)
    sys.dont_write_bytecode = True
    return finder
