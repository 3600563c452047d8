"""Hooks called by instrumented code and models of library functions."""

import collections
import builtins
import enum
import functools
import io
import json
import math
import operator
import os
import struct
import sys
import zlib

import z3

from .engine import BudgetExceeded, Engine, LocalExplorer, MergeFail, PathAbort, SymControl
from . import values as V
from .values import (
    Sym, SymBool, SymBytes, SymBytesIO, SymDict, SymFloat, SymInt, SymStr, bytes_elems, ite,
    mkbytes, sand, snot, sor, sym_eq, sym_index,
)

MAX_STEPS = 400000  # per path; a harness may raise it (OPTS steps)


class StepLimit(SymControl):
    """The path ran for too long (possible non-termination)."""


def _eng():
    return Engine.current


# ---- speculation ------------------------------------------------------------


class _Unbound:
    pass


_UNBOUND = _Unbound()
_ABSENT = object()


class _Conc:
    """Decided if statement: one ordinary pass."""

    __slots__ = ("d",)
    sym = False
    merged = False
    live = False

    def __init__(self, d):
        self.d = d

    def passes(self):
        return self.d


_CONC_T = _Conc((True,))
_CONC_F = _Conc((False,))


def sym_if(t, site):
    """Driver of an if statement whose branches may be merged."""
    if type(t) is SymBool:
        e = Engine.current
        if e is not None and not z3.is_true(t.e) and not z3.is_false(t.e):
            if e.local is None and e.site_fails.get(site, 0) < 3:
                side = e.one_sided.get(site)
                if side is not None and e.implied(t.e if side else z3.Not(t.e)):
                    return _CONC_T if side else _CONC_F
                return Merge(t, site)
    return _CONC_T if t else _CONC_F


class Merge:
    """State of one speculative two-way merge of an if statement."""

    __slots__ = ("c", "site", "ok", "live", "vals", "writes", "result", "merged", "mark", "ndefs")
    sym = True

    def __init__(self, c, site):
        self.c = c
        self.site = site
        self.ok = True
        self.live = False
        self.merged = False
        self.vals = []
        self.writes = []
        self.result = None

    def _begin(self, cond):
        e = _eng()
        e.spec += 1
        e.spec_conds.append(cond)
        self.ndefs = len(e.defs_cache)
        self.mark = len(e.journal)
        self.live = True

    def _end(self):
        e = _eng()
        e.spec -= 1
        e.spec_conds.pop()
        while len(e.defs_cache) > self.ndefs:
            e.defs_cache.popitem()
        self.live = False

    def passes(self):
        self._begin(self.c.e)
        yield True
        if self.ok:
            self._begin(z3.Not(self.c.e))
            yield False
            if self.ok and self._finish():
                self.merged = True
                return
        # Only genuine two-way failures count: a branch that raises because it
        # is infeasible says nothing about mergeability.
        e = _eng()
        forks = e.nforks
        try:
            taken = bool(self.c)
        except MergeFail:
            e.site_fails[self.site] = e.site_fails.get(self.site, 0) + 1
            raise
        if e.nforks != forks:
            e.site_fails[self.site] = e.site_fails.get(self.site, 0) + 1
        else:
            e.one_sided[self.site] = taken
        yield taken

    def _rollback(self, e):
        new = []
        while len(e.journal) > self.mark:
            kind, obj, key, old = e.journal.pop()
            if kind == "state":
                new.append((kind, obj, key, _snap(obj)))
                _unsnap(obj, old)
            elif kind == "item":
                new.append((kind, obj, key, _raw_getitem(obj, key)))
                _raw_setitem(obj, key, old)
            else:
                new.append((kind, obj, key, getattr(obj, key, _ABSENT)))
                if old is _ABSENT:
                    delattr(obj, key)
                else:
                    setattr(obj, key, old)
        return new

    def done(self, vals):
        if not self.live:
            return
        self.vals.append(vals)
        self.writes.append(self._rollback(_eng()))
        self._end()

    def fail(self, exc):
        """A branch raised: not mergeable (re-raised on an ordinary pass)."""
        if not self.live:
            raise exc
        self._rollback(_eng())
        self._end()
        self.ok = False
        if isinstance(exc, SymControl) and not isinstance(exc, MergeFail):
            raise exc
        if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise exc

    def _finish(self):
        e = _eng()
        c = self.c
        try:
            v1, v2 = self.vals
            res = tuple(_merge_val(c, a, b) for a, b in zip(v1, v2))
            cells = {}
            order = []
            for idx, ws in enumerate(self.writes):
                # journal is reported newest first; keep the newest write
                seen = set()
                for kind, obj, key, new in ws:
                    k = (kind, id(obj), key)
                    if k in seen:
                        continue
                    seen.add(k)
                    if k not in cells:
                        cells[k] = [obj, [_ABSENT, _ABSENT]]
                        order.append(k)
                    cells[k][1][idx] = new
            todo = []
            for k in order:
                kind, _, key = k
                obj, pair = cells[k]
                if kind == "state":
                    cur = _snap(obj)
                elif kind == "item":
                    cur = _raw_getitem(obj, key)
                else:
                    cur = getattr(obj, key, _ABSENT)
                a = cur if pair[0] is _ABSENT else pair[0]
                b = cur if pair[1] is _ABSENT else pair[1]
                if a is _ABSENT or b is _ABSENT:
                    raise MergeFail()
                if kind == "state":
                    todo.append((kind, obj, key, _merge_snap(c, a, b)))
                else:
                    todo.append((kind, obj, key, _merge_val(c, a, b)))
        except MergeFail:
            return False
        for kind, obj, key, val in todo:
            if kind == "state":
                journal_state(obj)
                _unsnap(obj, val)
            elif kind == "item":
                _store_item(val, obj, key)
            else:
                _store_attr(val, obj, key)
        self.result = res
        e.st["merges"] += 1
        return True


def _snap(obj):
    """Contents of a mutable object (list, bytearray, byte stream)."""
    if isinstance(obj, SymBytesIO):
        return (list(obj.buf), obj.posn)
    if isinstance(obj, SymBytes):
        return (list(obj.d), 0)
    return (list(obj), 0)


def _unsnap(obj, snap):
    if isinstance(obj, SymBytesIO):
        obj.buf[:] = snap[0]
        obj.posn = snap[1]
    elif isinstance(obj, SymBytes):
        obj.d[:] = snap[0]
    else:
        obj[:] = snap[0]


def _merge_snap(c, a, b):
    if len(a[0]) != len(b[0]) or a[1] != b[1]:
        raise MergeFail()
    return ([_merge_val(c, x, y) for x, y in zip(a[0], b[0])], a[1])


def journal_state(obj):
    """Record the contents of obj before it is changed in a speculation."""
    e = _eng()
    if e is None or not _speculating(e):
        return
    e.journal.append(("state", obj, None, _snap(obj)))


def _merge_val(c, a, b):
    if a is b:
        return a
    return ite(c, a, b)


def _raw_getitem(obj, key):
    if isinstance(obj, SymDict):
        cell = obj._cells[obj._idx[key]]
        return cell[1]
    if isinstance(obj, SymBytes):
        return obj.d[key]
    return obj[key]


def _raw_setitem(obj, key, val):
    if isinstance(obj, SymDict):
        obj._cells[obj._idx[key]][1] = val
    elif isinstance(obj, SymBytes):
        obj.d[key] = val
    else:
        obj[key] = val


def _speculating(e):
    return e.spec or e.local is not None


def _store_item(val, obj, key):
    e = _eng()
    if e is not None and _speculating(e):
        t = type(obj)
        if isinstance(key, Sym) or V.has_sym(key):
            raise MergeFail()
        if t is list or (t is SymBytes and obj.mutable):
            if not isinstance(key, int):
                raise MergeFail()
            if t is SymBytes:
                val = V.byte_elem(val)
            n = len(obj)
            if not -n <= key < n:
                raise MergeFail()
            key = int(key) % n
            journal_state(obj)
            _raw_setitem(obj, key, val)
            return
        if isinstance(obj, SymDict) and t.__setitem__ is SymDict.__setitem__:
            if key not in obj._idx:
                raise MergeFail()
            e.journal.append(("item", obj, key, _raw_getitem(obj, key)))
            _raw_setitem(obj, key, val)
            return
        raw = getattr(t, "__setitem__", None)
        if raw is not None and isinstance(raw, type(_store_item)):
            # user defined __setitem__: its own stores are journaled
            obj[key] = val
            return
        raise MergeFail()
    if type(obj) is list and isinstance(key, SymInt):
        n = len(obj)
        if key.lo < -n or key.hi >= n:
            if sor(key < -n, key >= n):
                raise IndexError("list assignment index out of range")
        try:
            new = []
            for i in range(n):
                c = sor(key == i, key == i - n)
                new.append(ite(c, val, obj[i]))
            obj[:] = new
            return
        except MergeFail:
            obj[key.__index__()] = val
            return
    if type(obj) is bytearray and (isinstance(key, Sym) or isinstance(val, Sym)):
        obj[key.__index__()] = val.__index__()
        return
    obj[key] = val


def _store_attr(val, obj, name):
    e = _eng()
    if e is not None and _speculating(e):
        desc = getattr(type(obj), name, None)
        if isinstance(desc, property) or (
            desc is not None and hasattr(type(desc), "__set__") and not _is_slot(desc)
        ):
            setattr(obj, name, val)  # python level setter, journals its own stores
            return
        if not hasattr(obj, "__dict__") and not _is_slot(desc):
            raise MergeFail()
        d = getattr(obj, "__dict__", None)
        if d is not None and not _is_slot(desc):
            old = d.get(name, _ABSENT)
        else:
            old = getattr(obj, name, _ABSENT)
        e.journal.append(("attr", obj, name, old))
    setattr(obj, name, val)


def _is_slot(desc):
    return type(desc).__name__ == "member_descriptor"


def sym_impure():
    e = _eng()
    if e is not None and _speculating(e):
        raise MergeFail()


V.impure = sym_impure


def sym_test(x):
    if isinstance(x, (SymInt, SymFloat)):
        return x != 0
    return x


def sym_tick():
    e = _eng()
    if e is not None:
        e.steps += 1
        if e.steps > e.max_steps:
            raise StepLimit("step limit")


def spec_eval(thunk, cond=None):
    """Evaluate thunk speculatively (under cond): (ok, value)."""
    e = _eng()
    e.spec += 1
    if cond is not None:
        e.spec_conds.append(cond)
    ndefs = len(e.defs_cache)
    mark = len(e.journal)
    try:
        val = thunk()
        if len(e.journal) > mark:
            raise MergeFail()
        return True, val
    except MergeFail:
        pass
    except SymControl:
        raise
    except Exception:
        pass
    finally:
        _rollback_to(e, mark)
        e.spec -= 1
        if cond is not None:
            e.spec_conds.pop()
            while len(e.defs_cache) > ndefs:
                e.defs_cache.popitem()
    return False, None


def _rollback_to(e, mark):
    while len(e.journal) > mark:
        kind, obj, key, old = e.journal.pop()
        if kind == "state":
            _unsnap(obj, old)
        elif kind == "item":
            _raw_setitem(obj, key, old)
        elif old is _ABSENT:
            delattr(obj, key)
        else:
            setattr(obj, key, old)


def sym_and(a, thunk):
    if type(a) is SymBool:
        if _eng() is not None:
            ok, b = spec_eval(thunk, a.e)
            if ok and isinstance(b, (bool, SymBool)):
                return sand(a, b)
        if not a:
            return False
        return thunk()
    if not a:
        return a
    return thunk()


def sym_or(a, thunk):
    if type(a) is SymBool:
        if _eng() is not None:
            ok, b = spec_eval(thunk, z3.Not(a.e))
            if ok and isinstance(b, (bool, SymBool)):
                return sor(a, b)
        if a:
            return True
        return thunk()
    if a:
        return a
    return thunk()


def sym_ifexp(c, a, b):
    if isinstance(c, (SymInt, SymFloat)):
        c = c != 0
    if type(c) is SymBool:
        ok, x = spec_eval(a, c.e)
        if ok:
            ok, y = spec_eval(b, z3.Not(c.e))
            if ok:
                try:
                    r = ite(c, x, y)
                    _eng().st["merges"] += 1
                    return r
                except MergeFail:
                    pass
    return a() if c else b()


def sym_not(a):
    if isinstance(a, SymBool):
        return snot(a)
    if isinstance(a, (SymInt, SymFloat)):
        return snot(a != 0)
    return not a


_CMPS = {
    "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
}


def _cmp(op, a, b):
    if op in _CMPS:
        return _CMPS[op](a, b)
    if op == "Eq":
        return sym_eq(a, b)
    if op == "NotEq":
        return sym_ne(a, b)
    if op == "In":
        return sym_in(a, b)
    if op == "NotIn":
        return sym_not(sym_in(a, b))
    if op == "Is":
        return sym_is(a, b)
    return sym_not(sym_is(a, b))


def sym_chain(left, *parts):
    def go(left, i):
        op, th = parts[i]
        right = th()
        r = _cmp(op, left, right)
        if i == len(parts) - 1:
            return r
        return sym_and(r, lambda: go(right, i + 1))

    return go(left, 0)


def sym_ne(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        ne = type(a).__ne__
        if ne is not object.__ne__ and isinstance(ne, type(sym_ne)) and not isinstance(a, SymDict):
            return a != b
    return sym_not(sym_eq(a, b))


def sym_is(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is b:
            return True
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
            return a == b
        if isinstance(a, SymInt):
            if a.enum is not None and V._enum_of(b) is a.enum:
                return a == b
            if a.enum is None and type(b) is int:
                return a == b
        return False
    return a is b


def sym_in(x, seq):
    t = type(seq)
    if isinstance(seq, SymDict):
        return seq.contains(x)
    if t in (tuple, list, set, frozenset, range) or isinstance(seq, V._View):
        if t is range and isinstance(x, SymInt) and seq.step == 1:
            return sand(x >= seq.start, x < seq.stop)
        if isinstance(x, Sym) or V.has_sym(x) or t in (tuple, list) or isinstance(seq, V._View):
            conds = []
            for e in seq:
                if e is x:
                    return True
                c = sym_eq(e, x)
                if c is True:
                    return True
                if c is False:
                    continue
                if not isinstance(c, SymBool):
                    if c:
                        return True
                    continue
                conds.append(c)
            return sor(*conds)
    if t is dict and (isinstance(x, Sym) or V.has_sym(x)):
        return sor(*[sym_eq(k, x) for k in seq])
    if t is str and isinstance(x, SymStr) or isinstance(seq, SymStr):
        e = SymStr.elems(x)
        d = SymStr.elems(seq)
        n = len(e)
        return sor(*[V.seq_eq(d[i:i + n], e) for i in range(len(d) - n + 1)])
    if isinstance(seq, (bytes, bytearray, SymBytes)) and (
        isinstance(x, Sym) or isinstance(seq, SymBytes)
    ):
        d = bytes_elems(seq)
        if isinstance(x, (int, SymInt)):
            return sor(*[_tb(e == x) for e in d])
        e = bytes_elems(x)
        n = len(e)
        return sor(*[V.seq_eq(d[i:i + n], e) for i in range(len(d) - n + 1)])
    if isinstance(t, enum.EnumMeta) or isinstance(seq, enum.EnumMeta):
        if isinstance(x, SymInt):
            return sor(*[_tb(x == m.value) for m in seq])
    return x in seq


def _tb(x):
    return x


def sym_getitem(a, k):
    if isinstance(k, SymInt):
        t = type(a)
        if t in (list, tuple) or isinstance(a, tuple):
            return sym_index(a, k)
        if t is bytes or t is bytearray:
            return sym_index(list(a), k)
        if t is str:
            return SymStr.make([sym_index([ord(c) for c in a], k)])
        if t is range:
            return a.start + k * a.step if not sor(k < 0, k >= len(a)) else a[k.__index__()]
    if type(a) is dict and (isinstance(k, Sym) or V.has_sym(k)):
        return SymDict(a)[k]
    return a[k]


def sym_dict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sym_fmt(fmt, args):
    if V.has_sym(args):
        return fmt
    try:
        return fmt % args
    except SymControl:
        return fmt


_IOPS = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
    "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow,
    "LShift": operator.ilshift, "RShift": operator.irshift, "BitOr": operator.ior,
    "BitXor": operator.ixor, "BitAnd": operator.iand, "MatMult": operator.imatmul,
}


def sym_iop(op, a, b):
    if isinstance(a, (list, bytearray, set, dict)) or (isinstance(a, SymBytes) and a.mutable):
        sym_impure()
        if type(a) is bytearray and isinstance(b, SymBytes):
            return SymBytes(list(a) + list(b.d), True)
    return _IOPS[op](a, b)


def sym_anyall(f, thunk):
    if f is builtins.any or f is builtins.all:
        e = _eng()
        if e is not None:
            res = []

            def run():
                out = []
                for x in thunk():
                    if isinstance(x, (SymInt, SymFloat)):
                        x = x != 0
                    if not isinstance(x, SymBool):
                        x = bool(x)
                        if f is builtins.any and x:
                            return True
                        if f is builtins.all and not x:
                            return False
                        continue
                    out.append(x)
                return sor(*out) if f is builtins.any else sand(*out)

            ok, v = spec_eval(run)
            if ok:
                return v
        return f(thunk())
    return sym_call(f, thunk())


# ---- function summaries -----------------------------------------------------

def sym_summary(fn):
    """Decorator for small functions with early returns: explore the call
    locally and merge its results into one value."""

    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        e = _eng()
        if e is None or e.local is not None or not e.summaries:
            return fn(*args, **kwargs)
        if e.site_fails.get(fn, 0) >= 3:
            return fn(*args, **kwargs)
        ok, val = _summarise(e, fn, args, kwargs)
        if ok:
            return val
        e.site_fails[fn] = e.site_fails.get(fn, 0) + 1
        return fn(*args, **kwargs)

    return wrapper


def _summarise(e, fn, args, kwargs):
    loc = LocalExplorer(24)
    mark = len(e.journal)
    results = []
    saved_spec = e.spec
    while True:
        loc.pos = 0
        loc.conds = []
        e.local = loc
        e.spec = 0
        try:
            val = fn(*args, **kwargs)
            if len(e.journal) > mark:
                raise MergeFail()
        except MergeFail:
            return False, None
        except SymControl:
            raise
        except Exception:
            return False, None
        finally:
            e.local = None
            e.spec = saved_spec
            _rollback_to(e, mark)
        results.append((list(loc.conds), val))
        if len(results) > loc.limit:
            return False, None
        if not loc.next():
            break
    try:
        res = results[-1][1]
        for conds, val in reversed(results[:-1]):
            c = sand(*[SymBool(x if v else z3.Not(x)) for x, v in conds])
            res = ite(c, val, res)
    except MergeFail:
        return False, None
    if len(results) > 1:
        e.st["merges"] += 1
    return True, res


# ---- builtins and library models --------------------------------------------


def py_type(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return x.enum or int
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, SymBytes):
        return bytearray if x.mutable else bytes
    if isinstance(x, SymStr):
        return str
    return None


def _clsfix(c):
    if type(c) is tuple:
        return tuple(_clsfix(x) for x in c)
    if c is SymDict:
        return dict
    try:
        return _CONTAINERS.get(c, c)
    except TypeError:
        return c


def m_isinstance(x, cls):
    cls = _clsfix(cls)
    t = py_type(x)
    if t is None:
        if isinstance(x, SymBytesIO):
            flat = cls if isinstance(cls, tuple) else (cls,)
            if io.BytesIO in flat:
                return True
        return isinstance(x, cls)
    return issubclass(t, cls)


def m_issubclass(x, cls):
    return issubclass(_clsfix(x), _clsfix(cls))


def m_type(*args):
    if len(args) == 1:
        return py_type(args[0]) or type(args[0])
    return type(*args)


def m_int(x=0, *a, **k):
    if isinstance(x, SymInt):
        return x.plain()
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymFloat):
        return x.__trunc__()
    return int(x, *a, **k)


def m_float(x=0.0):
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return SymFloat.of(x)
    return float(x)


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymFloat)):
        return x != 0
    return bool(x)


def m_str(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return str(*a, **k)


def m_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, SymBytes):
        return mkbytes(x.d)
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if isinstance(x, (bytes, bytearray, str, memoryview)):
        return bytes(*a, **k)
    if isinstance(x, (int, SymInt)):
        return bytes(x.__index__())
    return mkbytes(list(x))


def m_bytearray(*a, **k):
    if not a:
        return SymBytes([], True)
    x = a[0]
    if isinstance(x, (int, SymInt)):
        return SymBytes([0] * x.__index__(), True)
    if isinstance(x, SymStr):
        return SymBytes(x.encode(*a[1:], **k).d, True)
    if isinstance(x, str):
        return SymBytes(list(x.encode(*a[1:], **k)), True)
    e = bytes_elems(x)
    if e is None:
        e = [V.byte_elem(v) for v in x]
    return SymBytes(e, True)


def m_memoryview(x):
    if isinstance(x, SymBytes):
        return x
    return memoryview(x)


def m_ord(c):
    if isinstance(c, SymStr):
        if len(c.d) != 1:
            raise TypeError("ord() expected a character")
        return c.d[0]
    if isinstance(c, SymBytes):
        return c.d[0]
    return ord(c)


def m_chr(v):
    if isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 0x10FFFF:
            if sor(v < 0, v > 0x10FFFF):
                raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([v.plain()])
    return chr(v)


def _minmax(is_max):
    real = max if is_max else min

    def f(*args, **kw):
        key = kw.get("key")
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            return real(items, **kw)
        if key is not None:
            return real(items, **kw)
        if not any(isinstance(x, Sym) for x in items):
            return real(items)
        res = items[0]
        for x in items[1:]:
            c = (x > res) if is_max else (x < res)
            if isinstance(c, SymBool):
                try:
                    res = ite(c, x, res)
                    continue
                except MergeFail:
                    pass
            if c:
                res = x
        return res

    return f


def m_hash(x):
    return _hash(x)


def _hash(x):
    """Hash consistent with equality: equal arguments give equal hashes and
    (the usual case) different ones different hashes."""
    r = _hash_parts(x)
    return SymHash(r) if _has_sym_deep(r) else hash(x)


def _has_sym_deep(x):
    if isinstance(x, Sym):
        return True
    return type(x) is tuple and any(_has_sym_deep(e) for e in x)


def _hash_parts(x):
    if isinstance(x, SymHash):
        return x.v
    if isinstance(x, SymBytes) and x.mutable:
        raise TypeError("unhashable type: 'bytearray'")
    if isinstance(x, SymDict):
        raise TypeError("unhashable type: 'dict'")
    if isinstance(x, SymFSet):
        return SymFSet([_hash_parts(e) for e in x.items])
    if isinstance(x, Sym):
        return x
    if type(x) is tuple:
        return tuple(_hash_parts(e) for e in x)
    h = type(x).__hash__
    if h is None:
        raise TypeError("unhashable type: %r" % type(x).__name__)
    if type(h) is type(_hash_parts):  # defined in Python code
        r = h(x)
        return _hash_parts(r) if isinstance(r, Sym) else r
    hash(x)
    return x


class SymFSet(Sym):
    """frozenset with symbolic members (membership and equality only)."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __len__(self):
        out = []
        for x in self.items:
            if not any(bool(sym_eq(x, y)) for y in out):
                out.append(x)
        return len(out)

    def __iter__(self):
        return iter(self.items)

    def __eq__(self, o):
        if isinstance(o, frozenset):
            o = SymFSet(list(o))
        if not isinstance(o, SymFSet):
            return False
        def sub(a, b):
            return [sor(*[sym_eq(x, y) for y in b.items]) if b.items else False for x in a.items]
        return sand(*(sub(self, o) + sub(o, self)))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return 0


def m_frozenset(it=()):
    items = list(it)

    def plain(e):
        if type(e) is tuple:
            return all(plain(y) for y in e)
        return isinstance(e, (int, str, bytes, float, type(None), type, enum.Enum))

    if all(plain(e) for e in items):
        return frozenset(items)
    for e in items:
        _hash_parts(e)
    return SymFSet(items)


class SymHash(Sym):
    """Result of hash() on a symbolic value: equal arguments give equal
    hashes; nothing else is known."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return sym_eq(self.v, o.v)
        if isinstance(o, int):
            return sym_eq(self.v, o)
        return False

    def __hash__(self):
        return 0


def m_len(x):
    return len(x)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_enum(cls, x, *a):
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, SymInt):
        if x.enum is cls:
            return x
        x = x.plain()
        if not issubclass(cls, int):
            return cls(x.__index__(), *a)
        if not issubclass(cls, enum.Flag):
            vals = sorted({int(m.value) for m in cls})
            if hasattr(cls, "_missing_") and type(cls).__dict__.get("_missing_") is None:
                pass
            conds = []
            i = 0
            while i < len(vals):
                j = i
                while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
                    j += 1
                conds.append(sand(x >= vals[i], x <= vals[j]))
                i = j + 1
            if not sor(*conds):
                return cls(x.__index__())  # raises / uses _missing_
            lo, hi = max(x.lo, vals[0]), min(x.hi, vals[-1])
        else:
            lo, hi = x.lo, x.hi
        r = SymInt(lo, hi, x._segs, x._bv if x._segs is None else None, x._lin)
        if x._bv is not None and x._segs is None:
            r._bv = x._bv
        r.enum = cls
        return r
    return cls(x, *a)


def m_from_bytes(data, byteorder="big", *, signed=False):
    e = bytes_elems(data)
    if e is None:
        e = [V.byte_elem(x) for x in data]
    if all(type(x) is int for x in e):
        return int.from_bytes(bytes(e), byteorder, signed=bool(signed))
    return V.from_bytes(e, byteorder, signed)


_STRUCT_SZ = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4,
              "q": 8, "Q": 8, "x": 1, "s": 1}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    if fmt[:1] in "<>=!@":
        if fmt[0] in ">!":
            order = "big"
        elif fmt[0] == "@":
            raise NotImplementedError("native struct alignment")
        fmt = fmt[1:]
    elif len(fmt.strip("0123456789")) != 1:
        raise NotImplementedError("native struct alignment")
    out = []
    n = ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
        elif ch.isspace():
            continue
        else:
            if ch not in _STRUCT_SZ:
                raise NotImplementedError("struct code " + ch)
            k = int(n) if n else 1
            n = ""
            if ch == "s":
                out.append(("s", k))
            elif ch == "x":
                out.append(("x", k))
            else:
                out.extend([(ch, _STRUCT_SZ[ch])] * k)
    return order, out


def m_struct_pack(fmt, *vals):
    if not any(isinstance(v, Sym) for v in vals):
        return struct.pack(fmt, *vals)
    order, codes = _parse_fmt(fmt)
    out = []
    it = iter(vals)
    for ch, n in codes:
        if ch == "x":
            out.extend([0] * n)
        elif ch == "s":
            e = bytes_elems(next(it))[:n]
            out.extend(e + [0] * (n - len(e)))
        elif ch == "c":
            out.extend(bytes_elems(next(it)))
        else:
            v = next(it)
            if ch == "?":
                v = m_int(m_bool(v))
            try:
                out.extend(bytes_elems(_to_bytes(v, n, order, ch.islower())))
            except OverflowError as exc:
                raise struct.error(str(exc))
    return mkbytes(out)


def _to_bytes(v, n, order, signed):
    return v.to_bytes(n, order, signed=signed)


def m_struct_unpack(fmt, data):
    e = bytes_elems(data)
    if all(type(x) is int for x in e):
        return struct.unpack(fmt, bytes(e))
    order, codes = _parse_fmt(fmt)
    if sum(n for _, n in codes) != len(e):
        raise struct.error("unpack requires a buffer of other size")
    out = []
    p = 0
    for ch, n in codes:
        part = e[p:p + n]
        p += n
        if ch == "x":
            continue
        if ch in "sc":
            out.append(mkbytes(part))
        elif ch == "?":
            out.append(m_bool(m_from_bytes(mkbytes(part), order)))
        else:
            out.append(m_from_bytes(mkbytes(part), order, signed=ch.islower()))
    return tuple(out)


def m_struct_unpack_from(fmt, data, offset=0):
    e = bytes_elems(data)
    n = struct.calcsize(fmt)
    return m_struct_unpack(fmt, mkbytes(e[offset:offset + n]))


class m_Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *v):
        return m_struct_pack(self.format, *v)

    def unpack(self, d):
        return m_struct_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return m_struct_unpack_from(self.format, d, offset)


def m_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b, a % b
    return divmod(a, b)


def m_pow(a, b, mod=None):
    if isinstance(a, (SymFloat,)) or isinstance(b, (SymFloat, SymInt)):
        if isinstance(a, int) and isinstance(b, SymInt) and mod is None:
            return a ** b
        return pow(float(a) if isinstance(a, SymFloat) else a,
                   float(b) if isinstance(b, SymFloat) else b.__index__())
    if mod is not None:
        return pow(a, b, mod)
    return a ** b


class JsonText(str):
    """Serialized JSON standing for a document (text kept opaque)."""

    doc = None

    def __str__(self):
        return self


def _json_norm(x):
    if isinstance(x, dict):
        return SymDict([(_json_key(k), _json_norm(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [_json_norm(v) for v in x]
    if isinstance(x, (bytes, bytearray, SymBytes)):
        raise TypeError("Object of type bytes is not JSON serializable")
    if x is None or isinstance(x, (bool, int, float, str, Sym)):
        return x
    raise TypeError("not JSON serializable")


def _json_key(k):
    if isinstance(k, (str, SymStr)):
        return k
    raise TypeError("unsupported JSON key")


def m_json_dumps(obj, **kw):
    _eng().st["stubs"].add("json text: opaque, invertible for JSON documents")
    t = JsonText("{json document}")
    t.doc = _json_norm(obj)
    return t


def m_json_dump(obj, fp, **kw):
    fp.write(m_json_dumps(obj))


def m_json_loads(text, **kw):
    if isinstance(text, JsonText):
        return _json_norm(text.doc)
    return _json_norm(json.loads(text, **kw))


def m_json_load(fp, **kw):
    return m_json_loads(fp.read())


class _TextFile:
    def __init__(self, fs, path, mode):
        self.fs = fs
        self.path = path
        self.mode = mode
        if "w" in mode:
            fs[path] = ""
        elif path not in fs:
            raise FileNotFoundError(path)

    def read(self, *a):
        return self.fs[self.path]

    def write(self, s):
        if isinstance(s, JsonText):
            self.fs[self.path] = s
        else:
            cur = self.fs[self.path]
            if isinstance(cur, JsonText):
                if s.strip():
                    raise NotImplementedError
            else:
                self.fs[self.path] = cur + s

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def m_open(path, mode="r", *a, **k):
    e = _eng()
    fs = e.fs
    path = str(path)
    sym_impure()
    if "b" not in mode:
        return _TextFile(fs, path, mode)
    if "w" in mode:
        fs[path] = b""
        f = SymBytesIO()
    elif "r" in mode:
        if path not in fs:
            raise FileNotFoundError(2, "No such file or directory", path)
        f = SymBytesIO(fs[path])
    else:
        raise NotImplementedError("open mode " + mode)
    if "w" in mode or "+" in mode:
        def on_close(fobj):
            fs[path] = mkbytes(fobj.buf)

        f.on_close = on_close
    return f


def m_exists(path):
    return str(path) in _eng().fs


_CACHES = []


def m_lru_cache(*a, **k):
    if a and callable(a[0]) and not k:
        return _sym_cache(a[0])
    return _sym_cache


def _sym_cache(fn):
    store = SymDict()
    _CACHES.append(store)

    @functools.wraps(fn)
    def wrapper(*args, **kw):
        key = args + tuple(sorted(kw.items()))
        cell = store._find(key) if not _speculating_safe() else None
        if cell is not None:
            return cell[1]
        val = fn(*args, **kw)
        if not _speculating_safe():
            store[key] = val
        return val

    wrapper.cache_clear = store.clear
    return wrapper


def _speculating_safe():
    e = _eng()
    return e is None or bool(_speculating(e))


def sym_deco(d):
    if d in (functools.lru_cache, getattr(functools, "cache", None)):
        return m_lru_cache
    return d


def m_print(*a, **k):
    e = _eng()
    if e is not None and e.stdout is not None and k.get("file") in (None, sys.stdout):
        for x in a:
            e.stdout.append(x)


def m_bytesio(initial=b""):
    return SymBytesIO(initial)


def m_buffered_writer(raw, *a, **k):
    return raw


def m_reversed(x):
    if isinstance(x, (SymBytes, SymStr)):
        return iter(list(x)[::-1])
    return reversed(x)


def m_isfinite(x):
    if isinstance(x, (SymFloat, SymInt)):
        return True
    return math.isfinite(x)


def m_isnan(x):
    if isinstance(x, (SymFloat, SymInt)):
        return False
    return math.isnan(x)


def m_modf(x):
    if isinstance(x, (SymFloat, SymInt)):
        x = SymFloat.of(x)
        t = SymFloat.of(x.__trunc__())
        return (x - t, t)
    return math.modf(x)


def m_copysign(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return ite(b < 0, -abs(m_float(a)), abs(m_float(a))) if isinstance(b, Sym) else (
            -abs(m_float(a)) if b < 0 else abs(m_float(a))
        )
    return math.copysign(a, b)


def m_fabs(x):
    return abs(m_float(x)) if isinstance(x, Sym) else math.fabs(x)


def m_ldexp(x, i):
    if isinstance(x, Sym) and isinstance(i, int):
        return m_float(x) * (2.0 ** i)
    return math.ldexp(x, i)


def m_trunc(x):
    if isinstance(x, Sym):
        return x.__trunc__()
    return math.trunc(x)


def m_floor(x):
    if isinstance(x, Sym):
        return x.__floor__()
    return math.floor(x)


def m_ceil(x):
    if isinstance(x, Sym):
        return x.__ceil__()
    return math.ceil(x)


def m_int_bit_length(x):
    return x.bit_length()


MODELS = {
    isinstance: m_isinstance, issubclass: m_issubclass, type: m_type, int: m_int,
    float: m_float, bool: m_bool, str: m_str, bytes: m_bytes, bytearray: m_bytearray,
    memoryview: m_memoryview, ord: m_ord, chr: m_chr, max: _minmax(True), min: _minmax(False),
    hash: m_hash, frozenset: m_frozenset, sum: m_sum, divmod: m_divmod, pow: m_pow, reversed: m_reversed,
    struct.pack: m_struct_pack, struct.unpack: m_struct_unpack,
    struct.unpack_from: m_struct_unpack_from, struct.Struct: m_Struct,
    zlib.compress: V.zcompress, zlib.decompress: V.zdecompress,
    zlib.decompressobj: V.ZDecompressObj, io.BytesIO: m_bytesio,
    io.BufferedWriter: m_buffered_writer, io.BufferedReader: m_buffered_writer,
    json.dump: m_json_dump, json.dumps: m_json_dumps, json.load: m_json_load,
    json.loads: m_json_loads, open: m_open, io.open: m_open, os.path.exists: m_exists,
    os.path.isfile: m_exists, print: m_print, functools.lru_cache: m_lru_cache,
    math.isfinite: m_isfinite, math.isnan: m_isnan, math.modf: m_modf,
    math.copysign: m_copysign, math.fabs: m_fabs, math.ldexp: m_ldexp, math.trunc: m_trunc,
    math.floor: m_floor, math.ceil: m_ceil, dict: SymDict,
    operator.eq: sym_eq, operator.ne: sym_ne, operator.not_: sym_not,
    collections.defaultdict: V.SymDefaultDict, collections.OrderedDict: V.SymOrderedDict,
    collections.Counter: V.SymCounter,
}
_CONTAINERS = {f: MODELS[f] for f in (collections.defaultdict, collections.OrderedDict, collections.Counter)}
if hasattr(functools, "cache"):
    MODELS[functools.cache] = m_lru_cache

_PYMODELS = {f: m for f, m in MODELS.items() if isinstance(f, type(m_hash))}

_MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
    "setdefault", "add", "discard", "popitem", "write", "read", "seek", "truncate", "readinto",
    "__setitem__", "__delitem__", "__setattr__", "difference_update", "intersection_update",
    "appendleft", "popleft", "__next__", "send",
}


def sym_call(f, *args, **kwargs):
    e = Engine.current
    if e is None:
        # module initialisation: run natively except for the container models
        if f is functools.lru_cache:
            return m_lru_cache(*args, **kwargs)
        if f in (collections.defaultdict, collections.OrderedDict, collections.Counter):
            return _CONTAINERS[f](*args, **kwargs)
        return f(*args, **kwargs)
    e.steps += 1
    if e.steps > e.max_steps:
        raise StepLimit("step limit")
    tf = type(f)
    if tf is _PYFUNC:
        return _PYMODELS.get(f, f)(*args, **kwargs)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwargs)
    if tf is _BUILTIN:
        slf = f.__self__
        name = f.__name__
        ts = type(slf)
        if slf is int and name == "from_bytes":
            return m_from_bytes(*args, **kwargs)
        if slf is bytes or slf is bytearray:
            pass
        elif slf is dict and name == "fromkeys":
            return SymDict.fromkeys(*args, **kwargs)
        elif ts is str:
            return _str_method(f, slf, name, args, kwargs)
        elif ts is bytes or ts is bytearray:
            return _bytes_method(f, slf, name, args, kwargs)
        elif name in _MUTATORS and ts is not type(sys):
            if e.spec or e.local is not None:
                if ts is not list:
                    raise MergeFail()
                journal_state(slf)
        elif f is next and (e.spec or e.local is not None):
            raise MergeFail()
        if ts is dict and name in ("get", "pop", "setdefault") and V.has_sym(args[0]):
            return _plain_dict_method(slf, name, args)
        if (ts is list) and name in ("index", "count", "remove") and (
            V.has_sym(args[0]) or V.has_sym(slf)
        ):
            return _list_method(slf, name, args)
        if ts is set and name in ("add",) and V.has_sym(args[0]):
            pass
    elif tf is _METHOD:
        slf = f.__self__
        if isinstance(slf, (SymBytesIO, V.ZDecompressObj)):
            if e.spec or e.local is not None:
                if isinstance(slf, SymBytesIO) and f.__name__ in ("write", "read", "seek"):
                    journal_state(slf)
                elif f.__name__ not in ("tell", "getvalue"):
                    raise MergeFail()
        elif f.__name__ in _MUTATORS and isinstance(slf, (SymDict, SymBytes)):
            if e.spec or e.local is not None:
                if isinstance(slf, SymDict):
                    raise MergeFail()
                journal_state(slf)
    elif tf is _METHDESC:
        # unbound method such as str.join / list.append used through the class
        if f.__name__ in _MUTATORS and (e.spec or e.local is not None):
            raise MergeFail()
        if args and isinstance(args[0], (SymStr, SymBytes)) and f.__objclass__ in (str, bytes, bytearray):
            return getattr(args[0], f.__name__)(*args[1:], **kwargs)
    elif isinstance(f, enum.EnumMeta):
        if args and isinstance(args[0], (SymInt, SymBool)):
            return m_enum(f, *args)
        if issubclass(f, enum.EnumMeta):
            return f(*args, **kwargs)
    return f(*args, **kwargs)


def _plain_dict_method(d, name, args):
    for k in list(d):
        if sym_eq(k, args[0]):
            if name == "pop":
                return d.pop(k)
            return d[k]
    if name == "pop" and len(args) < 2:
        raise KeyError(args[0])
    if name == "setdefault":
        d[args[0]] = args[1] if len(args) > 1 else None
    return args[1] if len(args) > 1 else None


def _list_method(lst, name, args):
    if name == "count":
        return m_sum(ite(c, 1, 0) if isinstance(c, SymBool) else int(bool(c))
                     for c in [sym_eq(x, args[0]) for x in lst])
    lo, hi = 0, len(lst)
    if name == "index" and len(args) > 1:
        lo, hi, _ = slice(*(tuple(args[1:]) + (None,))[:2]).indices(len(lst))
    for i in range(lo, hi):
        x = lst[i]
        if sym_eq(x, args[0]):
            if name == "remove":
                sym_impure()
                del lst[i]
                return None
            return i
    raise ValueError("not in list")


def _str_method(f, s, name, args, kwargs):
    if name == "join":
        parts = list(args[0])
        if any(isinstance(p, SymStr) for p in parts):
            return V.str_join(s, parts)
        if any(isinstance(p, JsonText) for p in parts):
            return next(p for p in parts if isinstance(p, JsonText))
        return s.join(parts)
    if args and isinstance(args[0], SymStr):
        x = args[0]
        if name in ("index", "find"):
            if len(x.d) == 1:
                conds = [x.d[0] == ord(c) for c in s]
                found = sor(*conds)
                if found:
                    r = len(s) - 1
                    for i in range(len(s) - 1, -1, -1):
                        r = ite(conds[i], i, r)
                    return r
                if name == "index":
                    raise ValueError("substring not found")
                return -1
        if name == "startswith":
            return SymStr([ord(c) for c in s]).startswith(x)
        if name == "endswith":
            return SymStr([ord(c) for c in s]).endswith(x)
    if name == "format":
        if V.has_sym(args):
            return s
    elif name in _SEQ_OPS and any(isinstance(a, SymStr) for a in args):
        return getattr(SymStr([ord(c) for c in s]), name)(*args, **kwargs)
    return f(*args, **kwargs)


def _bytes_method(f, s, name, args, kwargs):
    if name == "join":
        parts = list(args[0])
        if any(isinstance(p, SymBytes) for p in parts):
            return V.bytes_join(s, parts)
        return s.join(parts)
    if args and isinstance(args[0], (SymBytes, SymInt)):
        if name in ("startswith", "endswith"):
            return getattr(SymBytes(list(s)), name)(*args)
        if name == "index" or name == "find":
            x = args[0]
            if isinstance(x, SymBytes) and len(x.d) == 1:
                x = x.d[0]
            if isinstance(x, SymInt):
                for i, c in enumerate(s):
                    if x == c:
                        return i
                if name == "index":
                    raise ValueError("subsection not found")
                return -1
        if name in ("append", "extend"):
            raise NotImplementedError("plain bytearray with symbolic data")
    if name in _SEQ_OPS and any(isinstance(a, (SymBytes, SymInt)) for a in args):
        return getattr(SymBytes(list(s), isinstance(s, bytearray)), name)(*args, **kwargs)
    return f(*args, **kwargs)


_SEQ_OPS = frozenset(n for n in vars(V.SymSeqOps) if not n.startswith("_"))


_PYFUNC = type(sym_call)
_BUILTIN = type(len)
_METHOD = type(SymDict().copy)
_METHDESC = type(str.join)


def sym_enter(name):
    e = Engine.current
    if e is not None:
        e.st["functions"].add(name)


class _DictMeta(type):
    pass


HOOKS = {
    "__symcall__": sym_call, "__symnot__": sym_not, "__symand__": sym_and, "__symor__": sym_or,
    "__symifexp__": sym_ifexp, "__symchain__": sym_chain, "__symeq__": sym_eq,
    "__symne__": sym_ne, "__symin__": sym_in, "__symis__": sym_is,
    "__symgetitem__": sym_getitem, "__symdict__": sym_dict, "__symfmt__": sym_fmt,
    "__symiop__": sym_iop, "__symsetitem__": _store_item, "__symsetattr__": _store_attr,
    "__symimpure__": sym_impure, "__symtest__": sym_test,
    "__symif__": sym_if,
    "__symunbound__": _UNBOUND, "__symsum__": builtins.sum, "__symanyall__": sym_anyall, "__symsummary__": sym_summary,
    "__symdeco__": sym_deco, "__symenter__": sym_enter, "__symtick__": sym_tick,
    "dict": SymDict,
}


# ---- module state -----------------------------------------------------------


class StateKeeper:
    """Restores module level mutable state before each path so that every
    path starts from the freshly imported program."""

    def __init__(self, modules):
        self.saved = []
        seen = set()

        def keep(obj, depth=0):
            if id(obj) in seen:
                return
            t = type(obj)
            if isinstance(obj, SymDict):
                seen.add(id(obj))
                self.saved.append((obj, "symdict", obj.items_list()))
                if depth < 2:
                    for _, v in obj.items_list():
                        keep(v, depth + 1)
            elif t is list:
                seen.add(id(obj))
                self.saved.append((obj, "list", list(obj)))
                if depth < 2:
                    for v in obj:
                        keep(v, depth + 1)
            elif t is dict:
                seen.add(id(obj))
                self.saved.append((obj, "dict", dict(obj)))
            elif t is set:
                seen.add(id(obj))
                self.saved.append((obj, "set", set(obj)))
            elif t is bytearray:
                seen.add(id(obj))
                self.saved.append((obj, "list", bytes(obj)))
            elif t is _PYFUNC:
                seen.add(id(obj))
                for v in (obj.__defaults__ or ()):
                    keep(v, 1)
                for v in (obj.__kwdefaults__ or {}).values():
                    keep(v, 1)
                for c in obj.__closure__ or ():
                    try:
                        keep(c.cell_contents, 1)
                    except ValueError:
                        pass
            elif isinstance(obj, type):
                if not (obj.__module__ or "").startswith("dustmaker"):
                    return
                seen.add(id(obj))
                if isinstance(obj, enum.EnumMeta):
                    return
                attrs = {}
                for k, v in list(vars(obj).items()):
                    if k.startswith("__") and k.endswith("__"):
                        if type(v) is _PYFUNC:
                            keep(v, 1)
                        continue
                    attrs[k] = v
                    if isinstance(v, (staticmethod, classmethod)):
                        keep(v.__func__, 1)
                    elif isinstance(v, property):
                        for g in (v.fget, v.fset, v.fdel):
                            if g is not None:
                                keep(g, 1)
                    else:
                        keep(v, 1)
                self.saved.append((obj, "class", attrs))

        for m in modules:
            scal = {}
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                scal[k] = v
                keep(v)
            self.saved.append((m, "module", scal))

    def restore(self):
        for c in _CACHES:
            c.clear()
        for obj, kind, snap in self.saved:
            if kind == "symdict":
                cur = obj.items_list()
                if len(cur) != len(snap) or any(
                    a[0] is not b[0] or a[1] is not b[1] for a, b in zip(cur, snap)
                ):
                    obj.clear()
                    for k, v in snap:
                        obj[k] = v
            elif kind == "list":
                obj[:] = snap
            elif kind == "dict":
                obj.clear()
                obj.update(snap)
            elif kind == "set":
                obj.clear()
                obj.update(snap)
            elif kind == "class":
                for k in [k for k in vars(obj) if k not in snap]:
                    if not (k.startswith("__") or k.startswith("_abc_")):
                        delattr(obj, k)
                for k, v in snap.items():
                    if vars(obj).get(k) is not v:
                        try:
                            setattr(obj, k, v)
                        except (AttributeError, TypeError):
                            pass
            else:
                d = vars(obj)
                for k in [k for k in d if k not in snap and not k.startswith("__")]:
                    del d[k]
                for k, v in snap.items():
                    if d.get(k) is not v:
                        d[k] = v
