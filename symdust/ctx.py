"""Harness context: the same harness runs symbolically and concretely."""

import enum as _enum
import io
import os
import sys


class CheckFailed(Exception):
    """A property assertion failed (concrete mode)."""


class AssumeFailed(Exception):
    """Inputs outside the assumed domain (concrete mode)."""


class CtxBase:
    def int(self, name, lo, hi):
        raise NotImplementedError

    def u(self, name, bits):
        return self.int(name, 0, (1 << bits) - 1)

    def s(self, name, bits):
        return self.int(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)


class Concrete(CtxBase):
    """Runs a harness on fixed input values against the real code."""

    symbolic = False

    def __init__(self, inputs, scratch=None):
        self.inputs = inputs
        self.checked = 0
        self.scratch = scratch
        self.failures = []

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, min(max(0, lo), hi))
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def flt(self, name, lo, hi, den):
        """num/den with lo <= num <= hi, den a power of two"""
        return self.int(name, lo, hi) / den

    def bytes(self, name, n):
        return bytes(self.int("%s[%d]" % (name, i), 0, 255) for i in range(n))

    def text(self, name, n, lo=0, hi=127):
        return "".join(chr(self.int("%s[%d]" % (name, i), lo, hi)) for i in range(n))

    def enum(self, name, cls):
        vals = [int(m) for m in cls]
        v = self._get(name, min(vals))
        return cls(v)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def each(self, name, items):
        items = list(items)
        if "each:" + name in self.inputs:
            return [items[self.inputs["each:" + name] % len(items)]]
        return items

    def assume(self, cond):
        if not cond:
            raise AssumeFailed("assume")

    def check(self, cond, msg=""):
        self.checked += 1
        if not cond:
            raise CheckFailed(msg)

    def check_eq(self, a, b, msg=""):
        self.check(a == b, msg)

    def concrete(self, x):
        return x

    # -- files
    def path(self, name):
        return os.path.join(self.scratch, name)

    def put_file(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)

    def get_file(self, name):
        p = self.path(name)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def put_json(self, name, doc):
        import json

        with open(self.path(name), "w", encoding="utf-8") as f:
            json.dump(doc, f)

    def capture_json(self, fn):
        """Run fn() and parse what it printed as JSON."""
        import json

        old = sys.stdout
        sys.stdout = buf = io.StringIO()
        try:
            rc = fn()
        finally:
            sys.stdout = old
        return rc, json.loads(buf.getvalue())

    def quiet(self, fn):
        old, olde = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        try:
            return fn()
        finally:
            sys.stdout, sys.stderr = old, olde


def make_symbolic(engine):
    import z3

    from . import models as M
    from . import values as V

    class Symbolic(CtxBase):
        symbolic = True

        def __init__(self, eng):
            self.eng = eng
            self.pending = []

        def int(self, name, lo, hi):
            eng = self.eng
            if lo == hi:
                return lo
            M.sym_impure()
            if name in eng.inputs:
                raise RuntimeError("duplicate input " + name)
            if lo == 0:
                n = hi.bit_length()
                var = z3.BitVec(name, n)
                eng.inputs[name] = ("int", var)
                if hi != (1 << n) - 1:
                    eng.add_def(z3.ULE(var, z3.BitVecVal(hi, n)))
                return V.SymInt.from_segs([(n, var, 0)], lo, hi)
            n = V.bits_for(lo, hi)
            var = z3.BitVec(name, n)
            eng.inputs[name] = ("sint", var)
            cons = []
            if lo != -(1 << (n - 1)):
                cons.append(var >= z3.BitVecVal(lo, n))
            if hi != (1 << (n - 1)) - 1:
                cons.append(var <= z3.BitVecVal(hi, n))
            if cons:
                eng.add_def(z3.And(*cons))
            return V.SymInt.from_bv(var, lo, hi)

        def bool(self, name):
            M.sym_impure()
            var = z3.Bool(name)
            self.eng.inputs[name] = ("bool", var)
            return V.SymBool(var)

        def flt(self, name, lo, hi, den):
            from fractions import Fraction

            v = self.int(name, lo, hi)
            if not isinstance(v, V.SymInt):
                return v / den
            return V.SymFloat.make(v, Fraction(1, den))

        def bytes(self, name, n):
            return V.mkbytes([self.int("%s[%d]" % (name, i), 0, 255) for i in range(n)])

        def text(self, name, n, lo=0, hi=127):
            return V.SymStr.make([self.int("%s[%d]" % (name, i), lo, hi) for i in range(n)])

        def enum(self, name, cls):
            vals = sorted(int(m) for m in cls)
            v = self.int(name, vals[0], vals[-1])
            if vals != list(range(vals[0], vals[-1] + 1)):
                self.assume(M.sym_in(v, vals))
            if not isinstance(v, V.SymInt):
                return cls(v)
            v.enum = cls
            return v

        def choice(self, name, options):
            options = list(options)
            v = self.int(name, 0, len(options) - 1)
            if isinstance(v, V.SymInt):
                v = v.__index__()
            return options[v]

        def each(self, name, items):
            """The items of a loop whose iterations do not depend on each
            other: all in one path, or one path each when they fork."""
            items = list(items)
            eng = self.eng
            if eng.split and len(items) > 1:
                M.sym_impure()
                n = len(items)
                var = z3.BitVec("each:" + name, (n - 1).bit_length())
                eng.inputs["each:" + name] = ("int", var)
                if n != 1 << (n - 1).bit_length():
                    eng.add_def(z3.ULT(var, z3.BitVecVal(n, var.size())))
                yield items[eng.pick(var, n)]
                return
            eng.in_each += 1
            for it in items:
                yield it
            eng.in_each -= 1

        def assume(self, cond):
            M.sym_impure()
            if isinstance(cond, V.SymBool):
                self.eng.assume(cond.e)
            elif isinstance(cond, (V.SymInt, V.SymFloat)):
                self.assume(cond != 0)
            elif not cond:
                self.eng.assume(False)

        def check(self, cond, msg=""):
            if isinstance(cond, (V.SymInt, V.SymFloat)):
                cond = cond != 0
            if self.eng.local is not None:
                M.sym_impure()
            self.eng.st["assertions"] += 1
            if self.eng.spec_conds:
                # evaluated speculatively inside an if statement of the
                # harness: the assertion is conditional on the branch
                e = cond.e if isinstance(cond, V.SymBool) else z3.BoolVal(bool(cond))
                guard = [z3.Not(c) for c in self.eng.spec_conds]
                self.pending.append((z3.Or(*(guard + [e])), msg))
                return
            if isinstance(cond, V.SymBool):
                self.pending.append((cond.e, msg))
                return
            if cond:
                self.eng.st["trivial_assertions"] += 1
                return
            self.pending.append((z3.BoolVal(False), msg))

        def check_eq(self, a, b, msg=""):
            self.check(V.sym_eq(a, b), msg)

        def concrete(self, x):
            """Fork over the values of x"""
            if isinstance(x, V.SymBool):
                return bool(x)
            if isinstance(x, V.SymInt):
                r = x.__index__()
                return x.enum(r) if x.enum else r
            return x

        # -- files
        def path(self, name):
            return "/virtual/" + name

        def put_file(self, name, data):
            M.sym_impure()
            self.eng.fs[self.path(name)] = data

        def get_file(self, name):
            return self.eng.fs.get(self.path(name))

        def put_json(self, name, doc):
            M.sym_impure()
            self.eng.fs[self.path(name)] = M.m_json_dumps(doc)

        def capture_json(self, fn):
            old = sys.stdout
            cap = _Cap()
            sys.stdout = cap
            self.eng.stdout = cap.parts
            try:
                rc = fn()
            finally:
                sys.stdout = old
                self.eng.stdout = None
            docs = [p for p in cap.parts if isinstance(p, M.JsonText)]
            if not docs:
                raise ValueError("no JSON output (result %r)" % (rc,))
            return rc, M.m_json_loads(docs[0])

        def quiet(self, fn):
            old, olde = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = _Cap()
            try:
                return fn()
            finally:
                sys.stdout, sys.stderr = old, olde

    class _Cap:
        def __init__(self):
            self.parts = []

        def write(self, s):
            self.parts.append(s)

        def flush(self):
            pass

    return Symbolic(engine)
