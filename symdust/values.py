"""Symbolic proxy values.

SymInt models Python's unbounded int exactly: every value carries an interval
[lo, hi] and is encoded in a signed bit-vector wide enough for it, so no
operation ever wraps.  Three forms are used:

* segs: non-negative value given as a concatenation of constant pieces and
  slices of bit-vector terms (bit stream code stays in this form),
* bv:   a signed bit-vector term,
* lin:  linear combination of other SymInts plus a constant.

SymFloat models a double as coef * SymInt together with a bound on the
absolute error of the double against that exact rational (0 = exact).
"""

import io
import math
import zlib
from fractions import Fraction

import z3

from .engine import Engine, MergeFail, PathAbort

__all__ = []


def eng():
    return Engine.current


def bits_for(lo, hi):
    """Width of the signed bit-vector able to hold [lo, hi]."""
    return max(
        (lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()
    ) + 1


class Sym:
    """Base of all symbolic proxies."""

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# booleans


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def as_int(self):
        return SymInt.from_bv(
            z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
        )

    def __invert__(self):
        return ~self.as_int()

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sand(self, o)
        return self.as_int() & o

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sor(self, o)
        return self.as_int() | o

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, bexpr(o)))
        return self.as_int() ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == bexpr(o))
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<SymBool>"


def _boolint(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ __rshift__ "
    "__rrshift__ __floordiv__ __mod__ __truediv__ __rtruediv__ __neg__ __pos__ __abs__ __lt__ "
    "__le__ __gt__ __ge__ __rmod__ __rfloordiv__"
).split():
    setattr(SymBool, _n, _boolint(_n))


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def snot(b):
    if isinstance(b, SymBool):
        if z3.is_not(b.e):
            return mkbool(b.e.arg(0))
        return SymBool(z3.Not(b.e))
    return not b


def sand(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.e)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(*out))


def sor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.e)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(*out))


# --------------------------------------------------------------------------
# integers
#
# segs: tuple of (width, base, off); base None => constant `off`, otherwise a
# slice [off, off+width) of z3 bit-vector `base`.  LSB first, no trailing
# constant-zero segment.


def _norm_segs(segs):
    out = []
    for w, base, off in segs:
        if w == 0:
            continue
        if out:
            pw, pb, po = out[-1]
            if pb is None and base is None:
                out[-1] = (pw + w, None, po | (off << pw))
                continue
            if pb is not None and pb is base and po + pw == off:
                out[-1] = (pw + w, base, po)
                continue
        out.append((w, base, off))
    while out and out[-1][1] is None:
        w, _, v = out[-1]
        if v == 0:
            out.pop()
            continue
        nb = v.bit_length()
        if nb != w:
            out[-1] = (nb, None, v)
        break
    return tuple(out)


def _segs_slice(segs, lo, n):
    """Bits [lo, lo+n) of a segment list (zero extended)."""
    out = []
    pos = 0
    end = lo + n
    got = 0
    for w, base, off in segs:
        a = max(lo, pos)
        b = min(end, pos + w)
        if a < b:
            if base is None:
                out.append((b - a, None, (off >> (a - pos)) & ((1 << (b - a)) - 1)))
            else:
                out.append((b - a, base, off + a - pos))
            got += b - a
        pos += w
        if pos >= end:
            break
    if got < n:
        out.append((n - got, None, 0))
    return out


def _segs_len(segs):
    return sum(s[0] for s in segs)


def _segs_bv(segs):
    parts = []
    for w, base, off in reversed(segs):
        if base is None:
            parts.append(z3.BitVecVal(off, w))
        elif off == 0 and base.size() == w:
            parts.append(base)
        else:
            parts.append(z3.Extract(off + w - 1, off, base))
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


def _cuts(*seglists):
    """Align several segment lists on common cut points."""
    pts = {0}
    for segs in seglists:
        p = 0
        for w, _, _ in segs:
            p += w
            pts.add(p)
    return sorted(pts)


class SymInt(Sym):
    __slots__ = ("lo", "hi", "_segs", "_bv", "_lin", "enum", "_sbv", "_conc")

    def __init__(self, lo, hi, segs=None, bv=None, lin=None, enum=None):
        self.lo = lo
        self.hi = hi
        self._segs = segs
        self._bv = bv
        self._lin = lin
        self.enum = enum
        self._sbv = None
        self._conc = None

    # -- constructors
    @staticmethod
    def from_bv(bv, lo, hi):
        """From a signed bit-vector whose value is known to lie in [lo, hi]."""
        if lo == hi:
            return lo
        return SymInt(lo, hi, bv=bv)

    @staticmethod
    def from_segs(segs, lo=None, hi=None):
        segs = _norm_segs(segs)
        if not segs:
            return 0
        if len(segs) == 1 and segs[0][1] is None:
            return segs[0][2]
        mx = mn = 0
        p = 0
        for w, base, off in segs:
            if base is None:
                mx |= off << p
                mn |= off << p
            else:
                mx |= ((1 << w) - 1) << p
            p += w
        if lo is not None:
            mn = max(mn, lo)
        if hi is not None:
            mx = min(mx, hi)
        if mn == mx:
            return mn
        return SymInt(mn, mx, segs=segs)

    @staticmethod
    def from_lin(terms, const):
        """terms: dict id -> (SymInt atom, coef)"""
        terms = {k: v for k, v in terms.items() if v[1] != 0}
        if not terms:
            return const
        lo = hi = const
        for atom, c in terms.values():
            if c > 0:
                lo += c * atom.lo
                hi += c * atom.hi
            else:
                lo += c * atom.hi
                hi += c * atom.lo
        if const == 0 and len(terms) == 1:
            (atom, c), = terms.values()
            if c == 1:
                return atom
        if lo == hi:
            return lo
        return SymInt(lo, hi, lin=(terms, const))

    # -- views
    def width(self):
        return bits_for(self.lo, self.hi)

    def sbv(self, w=None):
        """Signed bit-vector of width >= w (default: natural width)."""
        need = self.width()
        if w is None:
            w = need
        if self._sbv is not None and self._sbv.size() == w:
            return self._sbv
        w = max(w, need)
        if self._bv is not None:
            r = self._bv
            s = r.size()
            if s < w:
                r = z3.SignExt(w - s, r)
            elif s > w:
                r = z3.Extract(w - 1, 0, r)
        elif self._segs is not None:
            r = _segs_bv(self._segs)
            s = r.size()
            if s < w:
                r = z3.ZeroExt(w - s, r)
            elif s > w:
                r = z3.Extract(w - 1, 0, r)
        else:
            terms, const = self._lin
            r = z3.BitVecVal(const, w) if const else None
            for atom, c in terms.values():
                # modular arithmetic in w bits is exact for the final value
                t = atom.sbv_mod(w)
                m = abs(c)
                k = m.bit_length() - 1
                if m == 1 << k:
                    if k >= w:
                        continue
                    if k:
                        t = z3.Concat(z3.Extract(w - 1 - k, 0, t), z3.BitVecVal(0, k))
                    if c < 0:
                        r = -t if r is None else r - t
                        continue
                else:
                    t = t * z3.BitVecVal(c, w)
                r = t if r is None else r + t
            if r is None:
                r = z3.BitVecVal(0, w)
        self._sbv = r
        return r

    def sbv_mod(self, w):
        """Value modulo 2^w as a bit-vector of exactly w bits."""
        r = self.sbv(max(w, self.width()))
        if r.size() > w:
            r = z3.Extract(w - 1, 0, r)
        return r

    def segs(self):
        """Segment view, only valid for non-negative values."""
        if self._segs is None:
            n = self.hi.bit_length()
            base = self.sbv()
            self._segs = ((n, base, 0),)
        return self._segs

    def nonneg(self):
        return self.lo >= 0

    def lin(self):
        if self._lin is not None:
            return self._lin
        return ({id(self): (self, 1)}, 0)

    # -- arithmetic
    @staticmethod
    def coerce(o):
        """Return int / SymInt or None."""
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return o.as_int()
        if isinstance(o, int):
            return int(o)
        return None

    def _addmul(self, o, c):
        terms, const = self.lin()
        terms = dict(terms)
        if isinstance(o, int):
            return SymInt.from_lin(terms, const + c * o)
        ot, oc = o.lin()
        for k, (atom, cc) in ot.items():
            if k in terms:
                terms[k] = (atom, terms[k][1] + c * cc)
            else:
                terms[k] = (atom, c * cc)
        return SymInt.from_lin(terms, const + c * oc)

    def _disjoint(self, o):
        """or of two non-negative values with disjoint support, else None"""
        if self._lin is not None and self._segs is None:
            return None
        a = self.segs()
        if isinstance(o, int):
            if o < 0:
                return None
            b = ((o.bit_length(), None, o),)
        else:
            if not o.nonneg() or (o._lin is not None and o._segs is None):
                return None
            b = o.segs()
        pts = _cuts(a, b)
        out = []
        for p, q in zip(pts, pts[1:]):
            for s in _split_const(_segs_slice(a, p, q - p), _segs_slice(b, p, q - p)):
                if s is None:
                    return None
                out.append(s)
        return SymInt.from_segs(out)

    def __add__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) + o
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self.plain()
        if (
            self._segs is not None
            and self.nonneg()
            and not isinstance(o, int)
            and o._segs is not None
            and o.nonneg()
        ):
            r = self._disjoint(o)
            if r is not None:
                return r
        return self._addmul(o, 1)

    __radd__ = __add__

    def plain(self):
        """Same value without enum tag"""
        if self.enum is None:
            return self
        r = SymInt(self.lo, self.hi, self._segs, self._bv, self._lin)
        return r

    def __sub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) - o
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        return self._addmul(o, -1)

    def __rsub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return o - SymFloat.of(self)
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __neg__(self):
        terms, const = self.lin()
        return SymInt.from_lin({k: (a, -c) for k, (a, c) in terms.items()}, -const)

    def __pos__(self):
        return self.plain()

    def __abs__(self):
        if self.lo >= 0:
            return self.plain()
        if self.hi <= 0:
            return -self
        w = bits_for(min(self.lo, -self.hi), max(-self.lo, self.hi))
        b = self.sbv(w)
        return SymInt.from_bv(z3.If(b < 0, -b, b), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return -self - 1

    def __mul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) * o
        if isinstance(o, (bytes, str, list, tuple)):
            return NotImplemented  # its own __rmul__, else repetition through __index__
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o > 0 and o & (o - 1) == 0 and self._segs is not None and self.nonneg():
                return self << (o.bit_length() - 1)
            terms, const = self.lin()
            return SymInt.from_lin(
                {k: (a, c * o) for k, (a, c) in terms.items()}, const * o
            )
        small, other = (self, o) if self.hi - self.lo <= o.hi - o.lo else (o, self)
        if small.hi - small.lo <= 4:
            res = other * small.hi
            for k in range(small.hi - 1, small.lo - 1, -1):
                res = ite(small == k, other * k, res)
            return res
        cands = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(cands), max(cands)
        w = bits_for(lo, hi)
        return SymInt.from_bv(self.sbv_mod(w) * o.sbv_mod(w), lo, hi)

    __rmul__ = __mul__

    def _divmod_const(self, d):
        """Floor division and modulo by a positive constant."""
        assert d > 0
        if d == 1:
            return self.plain(), 0
        # split the linear form into a multiple of d and a remainder part
        terms, const = self.lin()
        # (quotients towards zero: never turn -x into -x * d + (d-1) * x)
        quo = {k: (c // d if c >= 0 else -(-c // d)) for k, (_, c) in terms.items()}
        qt = {k: (a, quo[k]) for k, (a, c) in terms.items() if quo[k]}
        rt = {k: (a, c - quo[k] * d) for k, (a, c) in terms.items() if c - quo[k] * d}
        if not rt:
            return SymInt.from_lin(qt, const // d), const % d
        if any(v[1] for v in qt.values()):
            q0 = SymInt.from_lin(qt, 0)
            rest = SymInt.from_lin(rt, const)
            if isinstance(rest, int):
                return q0 + rest // d, rest % d
            q1, r1 = rest._divmod_const(d)
            return q1 + q0, r1
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            return self >> k, self & (d - 1)
        if self.lo // d == self.hi // d:
            q = self.lo // d
            return q, self - q * d
        e = eng()
        key = ("div", tuple(sorted((k, c) for k, (_, c) in terms.items())), const, d)
        hit = e.defs_cache.get(key)
        if hit is not None:
            return hit[0]
        qlo, qhi = self.lo // d, self.hi // d
        e.fresh += 1
        q = z3.BitVec("q!%d" % e.fresh, bits_for(qlo, qhi))
        qv = SymInt.from_bv(q, qlo, qhi)
        e.fresh += 1
        r = z3.BitVec("r!%d" % e.fresh, bits_for(0, d - 1))
        rv = SymInt.from_bv(r, 0, d - 1)
        w = bits_for(min(self.lo, qlo * d), max(self.hi, (qhi + 1) * d)) + 1
        e.add_def(
            z3.And(
                self.sbv_mod(w)
                == z3.SignExt(w - q.size(), q) * z3.BitVecVal(d, w)
                + z3.SignExt(w - r.size(), r),
                r >= 0,
                r <= d - 1,
                q >= z3.BitVecVal(qlo, q.size()),
                q <= z3.BitVecVal(qhi, q.size()),
            )
        )
        e.defs_cache[key] = ((qv, rv), self)
        return qv, rv

    def __divmod__(self, o):
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod_const(-o)
            return q, -r
        return self._divmod_const(o)

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) // o
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) % o
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(self.__index__(), o, mod)

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0 and self.hi <= 128:
            return 1 << self
        return o ** self.__index__()

    # -- bit operations
    def __lshift__(self, o):
        if not isinstance(o, int):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self.plain()
        if self.nonneg() and (self._lin is None or self._segs is not None):
            return SymInt.from_segs(((o, None, 0),) + tuple(self.segs()))
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if not isinstance(o, int):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self.plain()
        if self.nonneg():
            n = self.hi.bit_length()
            if n <= o:
                return 0
            return SymInt.from_segs(
                _segs_slice(self.segs(), o, n - o), self.lo >> o, self.hi >> o
            )
        b = self.sbv()
        if b.size() <= o:
            o = b.size() - 1
        return SymInt.from_bv(
            z3.Extract(b.size() - 1, o, b), self.lo >> o, self.hi >> o
        )

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o >= 0:
                n = o.bit_length()
                if n == 0:
                    return 0
                if self.nonneg():
                    if self.hi.bit_length() <= n and o == (1 << n) - 1:
                        return self.plain()
                    segs = _segs_slice(self.segs(), 0, n)
                else:
                    base = self.sbv(max(n, self.width()))
                    segs = ((n, base, 0),)
                # apply mask runs
                out = []
                p = 0
                while p < n:
                    bit = (o >> p) & 1
                    q = p
                    while q < n and ((o >> q) & 1) == bit:
                        q += 1
                    if bit:
                        out.extend(_segs_slice(segs, p, q - p))
                    else:
                        out.append((q - p, None, 0))
                    p = q
                return SymInt.from_segs(out)
            if self.nonneg():
                return self & (o & ((1 << max(self.hi.bit_length(), 1)) - 1))
        return self._bitop(o, lambda a, b: a & b, "and")

    __rand__ = __and__

    def __or__(self, o):
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self.plain()
        if self.nonneg() and (isinstance(o, int) and o > 0 or isinstance(o, SymInt) and o.nonneg()):
            # overlay
            a = self.segs()
            b = ((o.bit_length(), None, o),) if isinstance(o, int) else o.segs()
            pts = _cuts(a, b)
            out = []
            ok = True
            for p, q in zip(pts, pts[1:]):
                for s in _split_const(
                    _segs_slice(a, p, q - p), _segs_slice(b, p, q - p), True
                ):
                    if s is None:
                        ok = False
                        break
                    out.append(s)
            if ok:
                return SymInt.from_segs(out)
        return self._bitop(o, lambda a, b: a | b, "or")

    __ror__ = __or__

    def __xor__(self, o):
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self.plain()
        return self._bitop(o, lambda a, b: a ^ b, "xor")

    __rxor__ = __xor__

    def _bitop(self, o, f, name):
        if isinstance(o, int):
            w = max(self.width(), bits_for(o, o))
            ob = z3.BitVecVal(o, w)
            olo = ohi = o
        else:
            w = max(self.width(), o.width())
            ob = o.sbv(w)
            olo, ohi = o.lo, o.hi
        a = self.sbv(w)
        bv = f(a, ob)
        if name == "and" and (self.lo >= 0 or olo >= 0):
            hi = min(x for x, l in ((self.hi, self.lo), (ohi, olo)) if l >= 0)
            lo = 0
        elif self.lo >= 0 and olo >= 0:
            lo, hi = 0, (1 << (w - 1)) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SymInt.from_bv(bv, lo, hi)

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self)._cmp(o, op)
        o = SymInt.coerce(o)
        if o is None:
            return NotImplemented
        d = self._addmul(o, -1)
        if isinstance(d, int):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[op]
        if op == "<":
            if d.hi < 0:
                return True
            if d.lo >= 0:
                return False
        elif op == "<=":
            if d.hi <= 0:
                return True
            if d.lo > 0:
                return False
        elif op == ">":
            if d.lo > 0:
                return True
            if d.hi <= 0:
                return False
        else:
            if d.lo >= 0:
                return True
            if d.hi < 0:
                return False
        if isinstance(o, int):
            w = max(self.width(), bits_for(o, o))
            a, b = self.sbv(w), z3.BitVecVal(o, w)
        else:
            w = max(self.width(), o.width())
            a, b = self.sbv(w), o.sbv(w)
        return mkbool(
            {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        )

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) == o
        o = SymInt.coerce(o)
        if o is None:
            return False
        if self is o:
            return True
        if isinstance(o, int):
            if o < self.lo or o > self.hi:
                return False
        elif o.hi < self.lo or o.lo > self.hi:
            return False
        if self._lin is not None or (isinstance(o, SymInt) and o._lin is not None):
            d = self._addmul(o, -1)
            if isinstance(d, int):
                return d == 0
        if (
            self._segs is not None
            and self.nonneg()
            and (isinstance(o, int) or o._segs is not None and o.nonneg())
        ):
            a = self._segs
            b = ((max(o.bit_length(), 1), None, o),) if isinstance(o, int) else o._segs
            pts = _cuts(a, b)
            conds = []
            for p, q in zip(pts, pts[1:]):
                sa = _segs_slice(a, p, q - p)[0]
                sb = _segs_slice(b, p, q - p)[0]
                if sa[1] is None and sb[1] is None:
                    if sa[2] != sb[2]:
                        return False
                elif sa[1] is not None and sb[1] is not None and sa[1].eq(sb[1]) and sa[2] == sb[2]:
                    continue
                else:
                    conds.append(_segs_bv([sa]) == _segs_bv([sb]))
            if not conds:
                return True
            return mkbool(z3.simplify(z3.And(*conds)) if len(conds) > 1 else z3.simplify(conds[0]))
        if isinstance(o, int):
            w = self.width()
            return mkbool(z3.simplify(self.sbv(w) == z3.BitVecVal(o, w)))
        w = max(self.width(), o.width())
        return mkbool(z3.simplify(self.sbv(w) == o.sbv(w)))

    def __ne__(self, o):
        return snot(self == o)

    # -- conversions
    def __index__(self):
        return eng().concretise(self.sbv(), True)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __trunc__(self):
        return self.plain()

    def __floor__(self):
        return self.plain()

    __ceil__ = __floor__

    def __round__(self, nd=None):
        return self.plain()

    def __repr__(self):
        return "<SymInt [%d,%d]>" % (self.lo, self.hi)

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymInt>"

    # int API
    @property
    def real(self):
        return self.plain()

    imag = 0
    denominator = 1

    @property
    def numerator(self):
        return self.plain()

    @property
    def value(self):
        # IntEnum member API
        if self.enum is None:
            raise AttributeError("value")
        return self.plain()

    @property
    def name(self):
        if self.enum is None:
            raise AttributeError("name")
        return self.enum(self.__index__()).name

    def conjugate(self):
        return self.plain()

    def is_integer(self):
        return True

    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        n = a.hi.bit_length()
        r = 0
        for k in range(n):
            r = ite(a >= (1 << k), k + 1, r)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if isinstance(length, SymInt):
            length = length.__index__()
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if signed:
            if self < -(1 << (8 * length - 1)) or self >= (1 << (8 * length - 1)):
                raise OverflowError("int too big to convert")
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError("int too big to convert")
        v = self & ((1 << (8 * length)) - 1) if length else 0
        if isinstance(v, int):
            return v.to_bytes(length, byteorder)
        segs = v.segs()
        out = [SymInt.from_segs(_segs_slice(segs, 8 * i, 8)) for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return mkbytes(out)


def _split_const(sa, sb, is_or=False):
    """Overlay of two single-cut slices; yields segments, None if impossible."""
    sa, sb = sa[0], sb[0]
    if sa[1] is None and sb[1] is None:
        if sa[2] & sb[2] and not is_or:
            yield None
        else:
            yield (sa[0], None, sa[2] | sb[2])
        return
    if sa[1] is not None and sb[1] is not None:
        if is_or and sa[1].eq(sb[1]) and sa[2] == sb[2]:
            yield sa
        else:
            yield None
        return
    if sa[1] is None:
        sa, sb = sb, sa
    # sa slice, sb const
    w, base, off = sa
    c = sb[2]
    if c == 0:
        yield sa
        return
    if not is_or:
        yield None
        return
    p = 0
    while p < w:
        bit = (c >> p) & 1
        q = p
        while q < w and ((c >> q) & 1) == bit:
            q += 1
        if bit:
            yield (q - p, None, (1 << (q - p)) - 1)
        else:
            yield (q - p, base, off + p)
        p = q


def from_bytes(elems, byteorder, signed):
    elems = list(elems)
    if byteorder == "big":
        elems.reverse()
    segs = []
    for b in elems:
        if isinstance(b, int):
            segs.append((8, None, b))
        else:
            segs.extend(_segs_slice(b.segs(), 0, 8))
    v = SymInt.from_segs(segs)
    if signed and elems:
        n = 8 * len(elems)
        v = ite(v >= (1 << (n - 1)), v - (1 << n), v)
    return v


# --------------------------------------------------------------------------
# floats

_TWO53 = 1 << 53


def _round53(s):
    """Round a SymInt to 53 significant bits (ties to even)."""
    m = max(abs(s.lo), abs(s.hi))
    nb = m.bit_length()
    if nb <= 53:
        return s
    b = s.sbv()
    w = b.size()
    top = z3.BitVecVal((1 << 53) - 1, w)
    if eng().implied(z3.And(b <= top, b >= -top)):
        return SymInt.from_bv(b, max(s.lo, -(1 << 53) + 1), min(s.hi, (1 << 53) - 1))
    a = abs(s)
    res = a
    for sh in range(1, nb - 53 + 1):
        # |s| >= 2^(52+sh): round to multiple of 2^sh
        q = a >> sh
        rem = a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        up = sor(rem > half, sand(rem == half, (q & 1) == 1))
        r = (ite(up, q + 1, q)) << sh
        res = ite(a >= (1 << (52 + sh)), r, res)
    return ite(s < 0, -res, res)


class SymFloat(Sym):
    """coef * num (+- err); `rn` marks a correctly rounded single operation"""

    __slots__ = ("num", "coef", "err", "rn")

    def __init__(self, num, coef=Fraction(1), err=Fraction(0), rn=True):
        self.num = num
        self.coef = coef
        self.err = err
        self.rn = rn

    @staticmethod
    def make(num, coef, err=Fraction(0), inputs_exact=True):
        """Result of one rounded operation whose exact value is coef*num."""
        if isinstance(num, int):
            v = coef * num
            if err == 0:
                return float(v)
            num = num  # constant with error: keep symbolic container
            return SymFloat(num, coef, err, False)
        if coef == 0:
            return 0.0
        # pull out integer factors so that the coefficient is canonical
        terms, const = num.lin()
        g = 0
        for _, c in terms.values():
            g = math.gcd(g, c)
        g = math.gcd(g, const)
        if g > 1:
            num = SymInt.from_lin({k: (a, c // g) for k, (a, c) in terms.items()}, const // g)
            coef = coef * g
        if coef < 0:
            num, coef = -num, -coef
        mx = max(abs(num.lo), abs(num.hi))
        den = coef.denominator
        if den & (den - 1) == 0:
            p = coef.numerator
            while p % 2 == 0:
                p //= 2
            if (mx * p).bit_length() <= 53:
                return SymFloat(num, coef, err, inputs_exact and err == 0)
            if err == 0:
                whole = num * coef.numerator
                r = _round53(whole)
                return SymFloat(r, Fraction(1, den), Fraction(0), True)
        # value not exactly representable in general
        new = err + (coef * mx + err) * Fraction(1, _TWO53)
        return SymFloat(num, coef, new, inputs_exact and err == 0)

    @staticmethod
    def of(x):
        """float(x)"""
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymBool):
            x = x.as_int()
        if isinstance(x, SymInt):
            return SymFloat.make(x.plain(), Fraction(1))
        return float(x)

    @staticmethod
    def parts(o):
        """(num, coef, err) of a number or None"""
        if isinstance(o, SymFloat):
            return o.num, o.coef, o.err
        if isinstance(o, (SymInt, SymBool)):
            f = SymFloat.of(o)
            return f.num, f.coef, f.err
        if isinstance(o, (int, float)):
            if isinstance(o, float) and not math.isfinite(o):
                return None
            fr = Fraction(o)
            return fr.numerator, Fraction(1, fr.denominator), Fraction(0)
        return None

    def exactnum(self):
        return self.err == 0

    def _lincomb(self, o, sign):
        p = SymFloat.parts(o)
        if p is None:
            return NotImplemented
        n1, c1, e1 = self.num, self.coef, self.err
        n2, c2, e2 = p
        den = c1.denominator * c2.denominator // math.gcd(c1.denominator, c2.denominator)
        a = c1.numerator * (den // c1.denominator)
        b = c2.numerator * (den // c2.denominator)
        return SymFloat.make(n1 * a + n2 * (sign * b), Fraction(1, den), e1 + e2, e1 == 0 and e2 == 0)

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._lincomb(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._lincomb(o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SymFloat(-self.num, self.coef, self.err, self.rn)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(abs(self.num), self.coef, self.err, self.rn)

    def __mul__(self, o):
        p = SymFloat.parts(o)
        if p is None:
            return NotImplemented
        n2, c2, e2 = p
        if isinstance(n2, int) and e2 == 0 and n2 * c2 in (1, -1):
            return self if n2 * c2 == 1 else -self
        m1 = self.coef * max(abs(self.num.lo), abs(self.num.hi))
        m2 = c2 * (abs(n2) if isinstance(n2, int) else max(abs(n2.lo), abs(n2.hi)))
        err = self.err * m2 + e2 * m1 + self.err * e2
        if isinstance(n2, int):
            if n2 == 0:
                return 0.0
            return SymFloat.make(self.num, self.coef * c2 * n2, err, self.err == 0)
        return SymFloat.make(self.num * n2, self.coef * c2, err, self.err == 0 and e2 == 0)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool, SymFloat)):
            o = float(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._mul_frac(Fraction(1) / Fraction(o))

    def _mul_frac(self, fr):
        if fr == 1:
            return self
        return SymFloat.make(self.num, self.coef * fr, self.err * abs(fr), self.err == 0)

    def __rtruediv__(self, o):
        return o / float(self)

    def __floordiv__(self, o):
        if isinstance(o, (SymInt, SymBool, SymFloat)):
            o = float(o)
        if o == 0:
            raise ZeroDivisionError("float floor division by zero")
        q = (Fraction(1) / Fraction(o)) * self.coef
        return SymFloat.of(self._floor_frac(q))

    def __mod__(self, o):
        if isinstance(o, (SymInt, SymBool, SymFloat)):
            o = float(o)
        q = self.__floordiv__(o)
        return self - q * o

    def __rmod__(self, o):
        return o % float(self)

    def __pow__(self, o):
        return float(self) ** (float(o))

    def __rpow__(self, o):
        return o ** float(self)

    # -- rounding to int
    def _approx(self):
        eng().st["approx"] += 1

    def _floor_frac(self, coef):
        """floor(coef * num) as SymInt"""
        if isinstance(self.num, int):
            return math.floor(coef * self.num)
        return (self.num * coef.numerator) // coef.denominator

    def _boundary_ok(self, half):
        """May err move the value over an integer (or half integer) boundary?"""
        if self.err == 0 or self.rn:
            # a correctly rounded value never crosses a representable boundary
            step = Fraction(1, self.coef.denominator * (2 if half else 1))
            if self.err and self.err >= step:
                self._approx()
            return
        step = Fraction(1, self.coef.denominator * (2 if half else 1))
        if self.err >= step:
            self._approx()
            return
        # exact boundary hits may go either way
        if self.coef.denominator == 1:
            if not half:
                self._approx()
        else:
            self._approx()

    def __floor__(self):
        self._boundary_ok(False)
        return self._floor_frac(self.coef)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        self._boundary_ok(False)
        n = self.num
        if isinstance(n, int):
            return math.trunc(self.coef * n)
        if n.lo >= 0:
            return self._floor_frac(self.coef)
        if n.hi <= 0:
            return -(((-n) * self.coef.numerator) // self.coef.denominator)
        a = abs(n)
        q = (a * self.coef.numerator) // self.coef.denominator
        return ite(n < 0, -q, q)

    def __round__(self, nd=None):
        if nd is not None:
            return round(float(self), nd)
        self._boundary_ok(True)
        c = self.coef
        n = self.num
        if isinstance(n, int):
            return round(c * n)
        if c.denominator == 1:
            return n * c.numerator
        twice = n * (2 * c.numerator) + c.denominator
        q, r = twice._divmod_const(2 * c.denominator)
        # tie iff r == 0 -> round half to even
        tie = r == 0
        if tie is False:
            return q
        odd = (q & 1) == 1
        return ite(sand(tie, odd), q - 1, q)

    def __float__(self):
        """Concretise"""
        if isinstance(self.num, int):
            return float(self.coef * self.num)
        n = self.num.__index__()
        if self.err:
            if not self.rn:
                self._approx()
        return float(self.coef * n)

    def __int__(self):
        return int(float(self))

    def is_integer(self):
        return self == SymFloat.of(self.__floor__())

    def as_integer_ratio(self):
        return float(self).as_integer_ratio()

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, float) and not math.isfinite(o):
            if o != o:
                return False
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
        p = SymFloat.parts(o)
        if p is None:
            return NotImplemented
        n2, c2, e2 = p
        c1 = self.coef
        den = c1.denominator * c2.denominator // math.gcd(c1.denominator, c2.denominator)
        a = self.num * (c1.numerator * (den // c1.denominator))
        b = n2 * (c2.numerator * (den // c2.denominator))
        if self.err or e2:
            both_rn = self.rn and (e2 == 0 or (isinstance(o, SymFloat) and o.rn))
            if self.err + e2 >= Fraction(1, den) or not both_rn:
                self._approx()
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b}[op]()

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, float) and not math.isfinite(o):
            return False
        if SymFloat.parts(o) is None:
            return False
        if isinstance(o, SymFloat) and o.coef == self.coef and self.rn and o.rn:
            r = self.num == o.num
            return r
        return self._cmp(o, "==")

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(float(self))

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return "<SymFloat>"

    def __format__(self, spec):
        return "<SymFloat>"


# --------------------------------------------------------------------------
# bytes and text


def is_sym(x):
    return isinstance(x, Sym)


def byte_elem(v):
    """Validate one element of a bytes object."""
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 255:
            if sor(v < 0, v > 255):
                raise ValueError("bytes must be in range(0, 256)")
            v = v & 0xFF
        return v.plain() if isinstance(v, SymInt) else v
    v = v.__index__()
    if not 0 <= v <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return v


def mkbytes(elems):
    """bytes if everything is concrete, SymBytes otherwise"""
    elems = [byte_elem(e) for e in elems]
    if all(type(e) is int for e in elems):
        return bytes(elems)
    return SymBytes(elems)


class SymSeqOps:
    """Methods bytes and str share, over element lists (subclasses: _mk, _el, _space)."""

    __slots__ = ()

    def _in(self, e, chars):
        if chars is None:
            return bool(self._space(e))
        return bool(sor(*[sym_eq(e, c) for c in self._el(chars)]))

    def _strip(self, chars, left, right):
        d = list(self.d)
        while left and d and self._in(d[0], chars):
            del d[0]
        while right and d and self._in(d[-1], chars):
            del d[-1]
        return self._mk(d)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        n = len(self._el(p))
        return self._mk(self.d[n:]) if bool(self.startswith(p)) else self._mk(self.d)

    def removesuffix(self, p):
        n = len(self._el(p))
        return self._mk(self.d[:-n]) if n and bool(self.endswith(p)) else self._mk(self.d)

    def _scan(self, sub, start, end, rev=False):
        e = [sub] if isinstance(sub, (int, SymInt)) else self._el(sub)
        start, end, _ = slice(start, end).indices(len(self.d))
        span = range(start, end - len(e) + 1)
        for i in reversed(span) if rev else span:
            if bool(seq_eq(self.d[i:i + len(e)], e)):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._scan(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._scan(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        i = self._scan(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self._scan(sub, start, end, True)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def _cut(self, sep, limit):
        n = len([sep] if isinstance(sep, (int, SymInt)) else self._el(sep))
        if not n:
            raise ValueError("empty separator")
        parts, pos = [], 0
        while limit < 0 or len(parts) < limit:
            i = self._scan(sep, pos, None)
            if i < 0:
                break
            parts.append(self.d[pos:i])
            pos = i + n
        return parts + [self.d[pos:]]

    def count(self, sub, start=None, end=None):
        n = [sub] if isinstance(sub, (int, SymInt)) else self._el(sub)
        start, end, _ = slice(start, end).indices(len(self.d))
        return len(type(self)(self.d[start:end])._cut(sub, -1)) - 1 if n else max(0, end - start) + 1

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return [self._mk(p) for p in self._cut(sep, maxsplit)]
        parts, cur, i = [], None, 0
        for i, e in enumerate(self.d):
            if bool(self._space(e)):
                if cur is not None:
                    parts.append(cur)
                    cur = None
            elif cur is None and 0 <= maxsplit <= len(parts):
                return [self._mk(p) for p in parts + [self.d[i:]]]
            else:
                cur = (cur or []) + [e]
        return [self._mk(p) for p in parts + ([cur] if cur is not None else [])]

    def partition(self, sep):
        i = self._scan(sep, None, None)
        if i < 0:
            return self._mk(self.d), self._mk([]), self._mk([])
        return self._mk(self.d[:i]), sep, self._mk(self.d[i + len(self._el(sep)):])

    def rpartition(self, sep):
        i = self._scan(sep, None, None, True)
        if i < 0:
            return self._mk([]), self._mk([]), self._mk(self.d)
        return self._mk(self.d[:i]), sep, self._mk(self.d[i + len(self._el(sep)):])

    def replace(self, old, new, count=-1):
        if not self._el(old):
            raise NotImplementedError("replace of an empty sequence")
        out = []
        for i, p in enumerate(self._cut(old, count)):
            out += (self._el(new) if i else []) + list(p)
        return self._mk(out)

    def _fill(self, fill):
        e = self._el(fill)
        if len(e) != 1:
            raise TypeError("the fill character must be exactly one character long")
        return e

    def ljust(self, n, fill=None):
        fill = self._fill(self._blank if fill is None else fill)
        return self._mk(self.d + fill * max(0, n - len(self.d)))

    def rjust(self, n, fill=None):
        fill = self._fill(self._blank if fill is None else fill)
        return self._mk(fill * max(0, n - len(self.d)) + self.d)


class SymBytes(SymSeqOps, Sym):
    __slots__ = ("d", "mutable")

    def __init__(self, d, mutable=False):
        self.d = list(d)
        self.mutable = mutable

    def __copy__(self):
        return SymBytes(self.d, True) if self.mutable else self

    def __deepcopy__(self, memo):
        return self.__copy__()

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __iter__(self):
        return iter(list(self.d))

    def __getitem__(self, k):
        if isinstance(k, slice):
            part = self.d[k]
            return SymBytes(part, True) if self.mutable else mkbytes(part)
        if isinstance(k, SymInt):
            return sym_index(self.d, k)
        return self.d[k]

    def __setitem__(self, k, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(k, slice):
            self.d[k] = [byte_elem(e) for e in v]
        else:
            self.d[k] = byte_elem(v)

    def __delitem__(self, k):
        if not self.mutable:
            raise TypeError("'bytes' object doesn't support item deletion")
        del self.d[k]

    def append(self, v):
        self.d.append(byte_elem(v))

    def extend(self, vs):
        self.d.extend(byte_elem(v) for v in vs)

    def __iadd__(self, o):
        if self.mutable:
            self.d.extend(bytes_elems(o))
            return self
        return self + o

    def __add__(self, o):
        e = bytes_elems(o)
        if e is None:
            return NotImplemented
        r = self.d + e
        return SymBytes(r, True) if self.mutable else mkbytes(r)

    def __radd__(self, o):
        e = bytes_elems(o)
        if e is None:
            return NotImplemented
        return mkbytes(e + self.d)

    def __mul__(self, n):
        return self._mk(self.d * (n if isinstance(n, int) else n.__index__()))

    __rmul__ = __mul__

    def __eq__(self, o):
        e = bytes_elems(o)
        if e is None:
            return False
        if len(e) != len(self.d):
            return False
        return seq_eq(self.d, e)

    def __ne__(self, o):
        return snot(self == o)

    def _lt(self, o, strict):
        e = bytes_elems(o)
        res = (len(self.d) < len(e)) or (not strict and len(self.d) == len(e))
        for a, b in reversed(list(zip(self.d, e))):
            res = sor(_b(a < b), sand(_b(a == b), res))
        return res

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return snot(self._lt(o, False))

    def __ge__(self, o):
        return snot(self._lt(o, True))

    def concrete(self):
        return bytes(int(x) for x in self.d)

    def __hash__(self):
        return hash(self.concrete())

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return bool(sor(*[_b(e == x) for e in self.d]))
        return self._scan(x, None, None) >= 0

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return sor(*[self.startswith(x, start) for x in p])
        e = bytes_elems(p)
        return len(e) <= len(self.d) - start and seq_eq(self.d[start:start + len(e)], e)

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        e = bytes_elems(p)
        return len(e) <= len(self.d) and (not e or seq_eq(self.d[-len(e):], e))

    def decode(self, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("-", "").replace("_", "")
        if enc in ("latin1", "iso88591"):
            return SymStr.make(self.d)
        for e in self.d:
            if e >= 128:
                return self.concrete().decode(enc, errors)
        return SymStr.make(self.d)

    def join(self, parts):
        return bytes_join(self, parts)

    def tobytes(self):
        return mkbytes(self.d)

    def hex(self, *a):
        return self.concrete().hex(*a)

    _blank = b" "

    def _mk(self, d):
        return SymBytes(d, True) if self.mutable else mkbytes(d)

    def _el(self, o):
        e = bytes_elems(o)
        if e is None:
            raise TypeError("a bytes-like object is required, not %r" % type(o).__name__)
        return e

    @staticmethod
    def _space(e):
        return sor(e == 32, sand(e >= 9, e <= 13))

    def _need_mutable(self, name):
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute %r" % name)

    def pop(self, i=-1):
        self._need_mutable("pop")
        return self.d.pop(i)

    def insert(self, i, v):
        self._need_mutable("insert")
        self.d.insert(i, byte_elem(v))

    def reverse(self):
        self._need_mutable("reverse")
        self.d.reverse()

    def clear(self):
        self._need_mutable("clear")
        del self.d[:]

    def copy(self):
        self._need_mutable("copy")
        return SymBytes(self.d, True)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(bytearray(self.concrete()) if self.mutable else self.concrete(), name)

    def __repr__(self):
        return "<SymBytes %d>" % len(self.d)


def bytes_elems(o):
    if isinstance(o, SymBytes):
        return list(o.d)
    if isinstance(o, (bytes, bytearray)):
        return list(o)
    if isinstance(o, memoryview):
        return list(bytes(o))
    return None


def bytes_join(sep, parts):
    out = []
    sep = bytes_elems(sep)
    first = True
    for p in parts:
        e = bytes_elems(p)
        if e is None:
            raise TypeError("sequence item: expected a bytes-like object")
        if not first:
            out.extend(sep)
        first = False
        out.extend(e)
    return mkbytes(out)


def _b(x):
    return x


def seq_eq(a, b):
    conds = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = sym_eq(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    return sand(*conds)


class SymStr(SymSeqOps, Sym):
    """Text with symbolic code points; elements are int or SymInt."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = list(d)

    @staticmethod
    def make(elems):
        elems = list(elems)
        if all(isinstance(e, int) for e in elems):
            return "".join(map(chr, elems))
        return SymStr(elems)

    @staticmethod
    def elems(o):
        if isinstance(o, SymStr):
            return list(o.d)
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __iter__(self):
        for e in list(self.d):
            yield SymStr.make([e])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr.make(self.d[k])
        if isinstance(k, SymInt):
            return SymStr.make([sym_index(self.d, k)])
        return SymStr.make([self.d[k]])

    def __add__(self, o):
        e = SymStr.elems(o)
        if e is None:
            return NotImplemented
        return SymStr.make(self.d + e)

    def __radd__(self, o):
        e = SymStr.elems(o)
        if e is None:
            return NotImplemented
        return SymStr.make(e + self.d)

    def __mul__(self, n):
        return SymStr.make(self.d * (n if isinstance(n, int) else n.__index__()))

    __rmul__ = __mul__

    def __eq__(self, o):
        e = SymStr.elems(o)
        if e is None or len(e) != len(self.d):
            return False
        return seq_eq(self.d, e)

    def __ne__(self, o):
        return snot(self == o)

    def _lt(self, o, strict):
        e = SymStr.elems(o)
        res = (len(self.d) < len(e)) or (not strict and len(self.d) == len(e))
        for a, b in reversed(list(zip(self.d, e))):
            res = sor(a < b, sand(a == b, res))
        return res

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return snot(self._lt(o, False))

    def __ge__(self, o):
        return snot(self._lt(o, True))

    def concrete(self):
        return "".join(chr(int(x)) for x in self.d)

    def __str__(self):
        if eng() is not None and (eng().spec or eng().local):
            raise MergeFail()
        return self.concrete()

    def __hash__(self):
        return hash(self.concrete())

    def __contains__(self, x):
        e = SymStr.elems(x)
        if len(e) == 1:
            return bool(sor(*[c == e[0] for c in self.d]))
        n = len(e)
        return bool(
            sor(*[seq_eq(self.d[i:i + n], e) for i in range(len(self.d) - n + 1)])
        )

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return sor(*[self.startswith(x, start) for x in p])
        e = SymStr.elems(p)
        return len(e) <= len(self.d) - start and seq_eq(self.d[start:start + len(e)], e)

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        e = SymStr.elems(p)
        return len(e) <= len(self.d) and (not e or seq_eq(self.d[-len(e):], e))

    def encode(self, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("-", "").replace("_", "")
        lim = 256 if enc in ("latin1", "iso88591") else 128
        for e in self.d:
            if e >= lim:
                return self.concrete().encode(enc, errors)
        return mkbytes(self.d)

    def join(self, parts):
        return str_join(self, parts)

    _blank = " "

    def _mk(self, d):
        return SymStr.make(d)

    def _el(self, o):
        e = SymStr.elems(o)
        if e is None:
            raise TypeError("must be str, not %s" % type(o).__name__)
        return e

    def _space(self, e):
        return SymStr([e])._cls("isspace")

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def swapcase(self):
        return self._case("swapcase")

    def _case(self, name):
        """Case mapping of every character, over all of Unicode where the path allows it."""
        out = []
        for e in self.d:
            if not isinstance(e, int):
                wide = e >= 128
                if not isinstance(wide, bool) and eng().spec:
                    raise MergeFail()
                runs, special = case_runs(name, bool(wide))
                if special:
                    if eng().spec:
                        raise MergeFail()
                    if sor(*[e == c for c in special]):
                        e = e.__index__()
            if isinstance(e, int):
                out.extend(ord(c) for c in getattr(chr(e), name)())
                continue
            r = e
            for lo, hi, step, delta in runs:
                c = sand(e >= lo, e <= hi)
                if step == 2:
                    c = sand(c, (e - lo) % 2 == 0)
                r = ite(c, e + delta, r)
            out.append(r)
        return SymStr.make(out)

    def _cls(self, name):
        """str.<name>() for every character, over all of Unicode where the path allows it."""
        if not self.d:
            return False
        out = []
        for e in self.d:
            if isinstance(e, int):
                out.append(getattr(chr(e), name)())
                continue
            wide = e >= 128
            if not isinstance(wide, bool) and eng().spec:
                raise MergeFail()
            out.append(sor(*[sand(e >= a, e <= b) for a, b in char_ranges(name, bool(wide))]))
        return sand(*out)

    def isdigit(self):
        return self._cls("isdigit")

    def isdecimal(self):
        return self._cls("isdecimal")

    def isnumeric(self):
        return self._cls("isnumeric")

    def isupper(self):
        if len(self.d) != 1:
            return str(self).isupper()
        return self._cls("isupper")

    def islower(self):
        if len(self.d) != 1:
            return str(self).islower()
        return self._cls("islower")

    def isalpha(self):
        return self._cls("isalpha")

    def isalnum(self):
        return self._cls("isalnum")

    def isspace(self):
        return self._cls("isspace")

    def isprintable(self):
        return not self.d or self._cls("isprintable")

    def isascii(self):
        return sand(*[e < 128 for e in self.d])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(str(self), name)

    def __repr__(self):
        return "<SymStr %d>" % len(self.d)

    def __format__(self, spec):
        return "<SymStr>"


_RANGES = {}
_CASES = {}


def case_runs(name, wide):
    """([(first, last, step, delta)], [code points mapped to several]) of a case mapping below (from) 128."""
    key = (name, wide)
    if key not in _CASES:
        f = getattr(str, name)
        runs, special = [], []
        for c in range(128, 0x110000) if wide else range(128):
            m = f(chr(c))
            if len(m) != 1:
                special.append(c)
                continue
            d = ord(m) - c
            if d == 0:
                continue
            # unchanged code points in between end a run of step 1; case pairs alternate with step 2
            for r in runs[-2:]:
                if r[3] == d and c - r[1] == r[2] or (r[3] == d and r[0] == r[1] and c - r[1] <= 2):
                    r[2] = c - r[1]
                    r[1] = c
                    break
            else:
                runs.append([c, c, 1, d])
        _CASES[key] = (runs, special)
    return _CASES[key]


def char_ranges(name, wide):
    """Maximal ranges of code points below (from) 128 with property `name`."""
    key = (name, wide)
    if key not in _RANGES:
        f = getattr(str, name)
        out, start = [], None
        lo, hi = (128, 0x110000) if wide else (0, 128)
        for c in range(lo, hi):
            if f(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, hi - 1))
        _RANGES[key] = out
    return _RANGES[key]


def str_join(sep, parts):
    sep = SymStr.elems(sep)
    out = []
    first = True
    for p in parts:
        e = SymStr.elems(p)
        if e is None:
            raise TypeError("sequence item: expected str instance")
        if not first:
            out.extend(sep)
        first = False
        out.extend(e)
    return SymStr.make(out)


# --------------------------------------------------------------------------
# generic helpers


def has_sym(x, depth=6):
    """Does x (a scalar or builtin container) contain symbolic parts?"""
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    t = type(x)
    if t in (tuple, list):
        return any(has_sym(e, depth - 1) for e in x)
    if isinstance(x, SymDict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def ite(c, a, b):
    """Merge two values; raises MergeFail when they have no common form."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta, tb = _kind(a), _kind(b)
    if ta == "bool" and tb == "bool":
        if not is_sym(a) and not is_sym(b):
            if a == b:
                return a
            return c if a else snot(c)
        return mkbool(z3.simplify(z3.If(c.e, bexpr(a), bexpr(b))))
    if ta in ("int", "bool") and tb in ("int", "bool"):
        ea = _enum_of(a)
        eb = _enum_of(b)
        a2, b2 = SymInt.coerce(a), SymInt.coerce(b)
        enum = ea if ea is eb else None
        if isinstance(a2, int) and isinstance(b2, int) and a2 == b2:
            return a
        la, ha = (a2, a2) if isinstance(a2, int) else (a2.lo, a2.hi)
        lb, hb = (b2, b2) if isinstance(b2, int) else (b2.lo, b2.hi)
        lo, hi = min(la, lb), max(ha, hb)
        if lo >= 0:
            r = _ite_segs(c, a2, b2, lo, hi)
            if r is not None:
                if isinstance(r, SymInt):
                    r.enum = enum
                    return r
                return enum(r) if enum is not None else r
        w = bits_for(lo, hi)
        xa = z3.BitVecVal(a2, w) if isinstance(a2, int) else a2.sbv(w)
        xb = z3.BitVecVal(b2, w) if isinstance(b2, int) else b2.sbv(w)
        r = SymInt(lo, hi, bv=z3.If(c.e, xa, xb))
        r.enum = enum
        return r
    if ta in ("float", "int") and tb in ("float", "int"):
        if ta == "int" or tb == "int":
            raise MergeFail()
        pa, pb = SymFloat.parts(a), SymFloat.parts(b)
        if pa is None or pb is None:
            raise MergeFail()
        (n1, c1, e1), (n2, c2, e2) = pa, pb
        if e1 or e2:
            if c1 != c2:
                raise MergeFail()
            return SymFloat(
                ite(c, n1, n2), c1, max(e1, e2),
                (not isinstance(a, SymFloat) or a.rn) and (not isinstance(b, SymFloat) or b.rn),
            )
        if n1 == 0 and isinstance(n1, int):
            c1 = c2
        if n2 == 0 and isinstance(n2, int):
            c2 = c1
        den = c1.denominator * c2.denominator // math.gcd(c1.denominator, c2.denominator)
        x = n1 * (c1.numerator * (den // c1.denominator))
        y = n2 * (c2.numerator * (den // c2.denominator))
        v = ite(c, x, y)
        if isinstance(v, int):
            return float(Fraction(v, den))
        return SymFloat(v, Fraction(1, den))
    if ta == "bytes" and tb == "bytes":
        ea, eb = bytes_elems(a), bytes_elems(b)
        if len(ea) != len(eb):
            raise MergeFail()
        return mkbytes([ite(c, x, y) for x, y in zip(ea, eb)])
    if ta == "str" and tb == "str":
        ea, eb = SymStr.elems(a), SymStr.elems(b)
        if len(ea) != len(eb):
            raise MergeFail()
        return SymStr.make([ite(c, x, y) for x, y in zip(ea, eb)])
    if ta == "tuple" and tb == "tuple" and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    raise MergeFail()


def _ite_segs(c, a, b, lo, hi):
    """Merge of non-negative values keeping the bits they share."""

    def view(x):
        if isinstance(x, int):
            return ((x.bit_length(), None, x),) if x else ((1, None, 0),)
        return x._segs

    sa, sb = view(a), view(b)
    if sa is None or sb is None or (len(sa) == 1 and len(sb) == 1):
        return None
    n = max(_segs_len(sa), _segs_len(sb))
    if _segs_len(sa) < n:
        sa = tuple(sa) + ((n - _segs_len(sa), None, 0),)
    if _segs_len(sb) < n:
        sb = tuple(sb) + ((n - _segs_len(sb), None, 0),)
    pts = _cuts(sa, sb)
    out = []
    for p, q in zip(pts, pts[1:]):
        xa, xb = _segs_slice(sa, p, q - p), _segs_slice(sb, p, q - p)
        if len(xa) != 1 or len(xb) != 1:
            return None
        (wa, ba, oa), (wb, bb, ob) = xa[0], xb[0]
        if oa == ob and (ba is bb or (ba is not None and bb is not None and ba.eq(bb))):
            out.append(xa[0])
            continue
        if ba is None and bb is None:
            # split constants into equal and differing bits
            k = 0
            while k < wa:
                same = (oa >> k) & 1 == (ob >> k) & 1
                m = k + 1
                while m < wa and ((oa >> m) & 1 == (ob >> m) & 1) == same:
                    m += 1
                va, vb = (oa >> k) & ((1 << (m - k)) - 1), (ob >> k) & ((1 << (m - k)) - 1)
                if same:
                    out.append((m - k, None, va))
                else:
                    out.append((m - k, z3.If(c.e, z3.BitVecVal(va, m - k), z3.BitVecVal(vb, m - k)), 0))
                k = m
            continue
        out.append((wa, z3.If(c.e, _segs_bv(xa), _segs_bv(xb)), 0))
    return SymInt.from_segs(out, lo, hi)


def _enum_of(x):
    if isinstance(x, SymInt):
        return x.enum
    t = type(x)
    if t in (int, bool):
        return None
    return t if hasattr(t, "_member_map_") else None


def _kind(x):
    if isinstance(x, (bool, SymBool)):
        return "bool"
    if isinstance(x, (int, SymInt)):
        return "int"
    if isinstance(x, (float, SymFloat)):
        return "float"
    if isinstance(x, (str, SymStr)):
        return "str"
    if isinstance(x, bytes) or (isinstance(x, SymBytes) and not x.mutable):
        return "bytes"
    if type(x) is tuple:
        return "tuple"
    return None


def sym_index(seq, k):
    """seq[k] for a symbolic index: if-then-else when mergeable, else fork."""
    n = len(seq)
    if k.lo < -n or k.hi >= n:
        if sor(k < -n, k >= n):
            raise IndexError("index out of range")
    lo, hi = max(k.lo, -n), min(k.hi, n - 1)
    if hi - lo < 600:
        try:
            res = seq[hi]
            for i in range(hi - 1, lo - 1, -1):
                res = ite(k == i, seq[i], res)
            return res
        except MergeFail:
            if eng().spec or eng().local:
                raise
    return seq[k.__index__()]


def sym_eq(a, b):
    """a == b, merged into one condition where possible."""
    if a is b and not isinstance(a, float):
        return True
    if is_sym(a) or is_sym(b):
        if is_sym(a):
            r = a == b
        else:
            r = b == a
        return r
    ta, tb = type(a), type(b)
    if ta in (tuple, list) and ta is tb:
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = sym_eq(x, y)
            if c is False:
                return False
            if c is not True:
                if not isinstance(c, SymBool):
                    if not c:
                        return False
                    continue
                conds.append(c)
        return sand(*conds)
    if isinstance(a, dict) and isinstance(b, dict) and (
        isinstance(a, SymDict) or isinstance(b, SymDict)
    ):
        return dict_eq(a, b)
    flds = getattr(ta, "__dataclass_fields__", None)
    if flds is not None and ta is tb and getattr(ta, "__dataclass_params__").eq:
        conds = []
        for name, f in flds.items():
            if f.compare:
                c = sym_eq(getattr(a, name), getattr(b, name))
                if c is False:
                    return False
                conds.append(c)
        return sand(*[c for c in conds if c is not True])
    return a == b


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for k, v in a.items():
        if isinstance(b, SymDict):
            cell = b._find(k)
            if cell is None:
                return False
            w = cell[1]
        else:
            if k not in b:
                return False
            w = b[k]
        c = sym_eq(v, w)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    return sand(*conds)


_MISSING = object()


def _key_concrete(k):
    if isinstance(k, Sym):
        return False
    if type(k) is tuple:
        return all(_key_concrete(x) for x in k)
    return True


class SymDict(dict):
    """Insertion ordered dict that allows symbolic keys.  Lookups that involve
    a symbolic key compare against the entries (forking where undecided)."""

    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls)
        self._cells = {}  # insertion order: token -> cell [key, value]
        self._idx = {}  # concrete key -> token
        self._symkeys = 0
        self._tok = 0
        return self

    def __init__(self, *args, **kwargs):
        super().__init__()
        self.update(*args, **kwargs)

    def __reduce__(self):
        return (SymDict, (self.items_list(),))

    # -- core
    def _find_tok(self, key):
        if _key_concrete(key):
            tok = self._idx.get(key, _MISSING)
            if tok is not _MISSING:
                return tok
            if not self._symkeys:
                return None
            for tok, cell in list(self._cells.items()):
                if not _key_concrete(cell[0]):
                    if sym_eq(cell[0], key):
                        return tok
            return None
        for tok, cell in list(self._cells.items()):
            if cell[0] is key:
                return tok
        for tok, cell in list(self._cells.items()):
            if sym_eq(cell[0], key):
                return tok
        return None

    def _find(self, key):
        tok = self._find_tok(key)
        return None if tok is None else self._cells[tok]

    def _merge_lookup(self, key):
        """(found condition, merged value) for a symbolic scalar key over
        concrete keys, or None"""
        if self._symkeys or _key_concrete(key) or isinstance(key, tuple) or not self._cells:
            return None
        if len(self._cells) > 600:
            return None
        kinds = {_kind(c[1]) for c in self._cells.values()}
        if len(kinds) != 1 or kinds.pop() not in ("int", "bool", "float", "str"):
            return None
        try:
            found = []
            val = _MISSING
            for cell in self._cells.values():
                c = sym_eq(cell[0], key)
                if c is False:
                    continue
                found.append(c)
                val = cell[1] if val is _MISSING else ite(c, cell[1], val)
            return sor(*found), val
        except MergeFail:
            return None

    def __getitem__(self, key):
        m = self._merge_lookup(key)
        if m is not None:
            if m[0]:
                return m[1]
            return self._absent(key)
        cell = self._find(key)
        if cell is None:
            return self._absent(key)
        return cell[1]

    def _absent(self, key):
        f = getattr(type(self), "__missing__", None)
        if f is None:
            raise KeyError(key)
        return f(self, key)

    def get(self, key, default=None):
        m = self._merge_lookup(key)
        if m is not None:
            if m[0] is False:
                return default
            try:
                return ite(m[0], m[1], default)
            except MergeFail:
                if m[0]:
                    return m[1]
                return default
        cell = self._find(key)
        return default if cell is None else cell[1]

    def __setitem__(self, key, value):
        cell = self._find(key)
        if cell is not None:
            cell[1] = value
            return
        self._tok += 1
        self._cells[self._tok] = [key, value]
        if _key_concrete(key):
            self._idx[key] = self._tok
        else:
            self._symkeys += 1

    def _del_tok(self, tok):
        key = self._cells.pop(tok)[0]
        if _key_concrete(key):
            del self._idx[key]
        else:
            self._symkeys -= 1

    def __delitem__(self, key):
        tok = self._find_tok(key)
        if tok is None:
            raise KeyError(key)
        self._del_tok(tok)

    def pop(self, key, *default):
        tok = self._find_tok(key)
        if tok is None:
            if default:
                return default[0]
            raise KeyError(key)
        val = self._cells[tok][1]
        self._del_tok(tok)
        return val

    def popitem(self):
        if not self._cells:
            raise KeyError("popitem(): dictionary is empty")
        tok = next(reversed(self._cells))
        key, val = self._cells[tok]
        self._del_tok(tok)
        return key, val

    def setdefault(self, key, default=None):
        cell = self._find(key)
        if cell is None:
            self[key] = default
            return default
        return cell[1]

    def contains(self, key):
        """Merged membership condition"""
        if _key_concrete(key):
            if key in self._idx:
                return True
            if not self._symkeys:
                return False
        return sor(*[sym_eq(c[0], key) for c in self._cells.values()])

    def __contains__(self, key):
        return bool(self.contains(key))

    def __len__(self):
        return len(self._cells)

    def __bool__(self):
        return bool(self._cells)

    def __iter__(self):
        for tok, cell in list(self._cells.items()):
            yield cell[0]

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def update(self, *args, **kwargs):
        if args:
            (src,) = args
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def clear(self):
        self._cells.clear()
        self._idx.clear()
        self._symkeys = 0

    def copy(self):
        return self._like(self.items_list())

    def __copy__(self):
        return self.copy()

    def _like(self, items=()):
        """A dict of the same standard type."""
        return SymDict(items)

    def items_list(self):
        return [(c[0], c[1]) for c in self._cells.values()]

    def __deepcopy__(self, memo):
        import copy

        r = self._like()
        memo[id(self)] = r
        for k, v in self.items_list():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        return dict_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, value=None):
        return cls((k, value) for k in it)

    def __repr__(self):
        return "SymDict(%r)" % (self.items_list(),)


class SymDefaultDict(SymDict):
    """collections.defaultdict"""

    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        super().__init__(*args, **kwargs)

    def __reduce__(self):
        return (SymDefaultDict, (self.default_factory, self.items_list()))

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        e = eng()
        if e is not None and (e.spec or e.local is not None):
            raise MergeFail()
        from .models import sym_call

        val = self[key] = sym_call(self.default_factory)
        return val

    def _like(self, items=()):
        return SymDefaultDict(self.default_factory, items)


class SymOrderedDict(SymDict):
    """collections.OrderedDict"""

    def __reduce__(self):
        return (SymOrderedDict, (self.items_list(),))

    def popitem(self, last=True):
        if last or not self._cells:
            return super().popitem()
        tok = next(iter(self._cells))
        key, val = self._cells[tok]
        self._del_tok(tok)
        return key, val

    def move_to_end(self, key, last=True):
        tok = self._find_tok(key)
        if tok is None:
            raise KeyError(key)
        items = self.items_list()
        cell = self._cells[tok]
        items = [(k, v) for k, v in items if k is not cell[0]]
        items.insert(len(items) if last else 0, tuple(cell))
        self.clear()
        for k, v in items:
            self[k] = v

    def _like(self, items=()):
        return SymOrderedDict(items)


class SymCounter(SymDict):
    """collections.Counter"""

    def __missing__(self, key):
        return 0

    def __reduce__(self):
        return (SymCounter, (dict(self.items_list()),))

    def __delitem__(self, key):
        tok = self._find_tok(key)
        if tok is not None:
            self._del_tok(tok)

    def _count(self, args, kwargs, sign):
        if args and args[0] is not None:
            src = args[0]
            pairs = [(k, src[k]) for k in src.keys()] if hasattr(src, "keys") else [(k, 1) for k in src]
            for k, n in pairs:
                self[k] = self[k] + sign * n
        for k, n in kwargs.items():
            self[k] = self[k] + sign * n

    def update(self, *args, **kwargs):
        self._count(args, kwargs, 1)

    def subtract(self, *args, **kwargs):
        self._count(args, kwargs, -1)

    def elements(self):
        for k, n in self.items_list():
            for _ in range(n):
                yield k

    def total(self):
        r = 0
        for _, n in self.items_list():
            r = r + n
        return r

    def most_common(self, n=None):
        from .models import sym_call

        r = sym_call(sorted, self.items_list(), key=lambda p: p[1], reverse=True)
        return r if n is None else r[:n]

    def _like(self, items=()):
        r = SymCounter()
        for k, n in items:
            r[k] = n
        return r


class _View:
    def __init__(self, d, which):
        self.d = d
        self.which = which

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for c in list(self.d._cells.values()):
            yield (c[0], c[1]) if self.which == 2 else c[self.which]

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, x):
        if self.which == 0:
            return x in self.d
        return any(bool(sym_eq(e, x)) for e in self)

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self)

    def __sub__(self, o):
        return {x for x in self if x not in o}

    def __and__(self, o):
        return {x for x in self if x in o}

    def __repr__(self):
        return repr(list(self))


# --------------------------------------------------------------------------
# environment stand-ins


class SymBytesIO(io.BufferedIOBase):
    """In-memory binary stream holding symbolic bytes (io.BytesIO contract)."""

    def __init__(self, initial=b""):
        self.buf = bytes_elems(initial) or []
        self.posn = 0
        self._closed = False
        self.on_close = None

    def _ck(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        self._ck()
        if n is None:
            n = -1
        if not isinstance(n, int):
            n = n.__index__()
        if n < 0:
            out = self.buf[self.posn:]
        else:
            out = self.buf[self.posn:self.posn + n]
        self.posn += len(out)
        return mkbytes(out)

    read1 = read

    def getbuffer(self):
        return self.getvalue()

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def peek(self, n=0):
        return mkbytes(self.buf[self.posn:])

    def write(self, data):
        self._ck()
        e = bytes_elems(data)
        if e is None:
            raise TypeError("a bytes-like object is required")
        if not e:
            return 0
        if self.posn > len(self.buf):
            self.buf.extend([0] * (self.posn - len(self.buf)))
        self.buf[self.posn:self.posn + len(e)] = e
        self.posn += len(e)
        return len(e)

    def seek(self, pos, whence=0):
        self._ck()
        if not isinstance(pos, int):
            pos = pos.__index__()
        if whence == 1:
            pos = max(0, self.posn + pos)
        elif whence == 2:
            pos = max(0, len(self.buf) + pos)
        if pos < 0:
            raise ValueError("negative seek value %d" % pos)
        self.posn = pos
        return pos

    def tell(self):
        self._ck()
        return self.posn

    def truncate(self, size=None):
        size = self.posn if size is None else size
        del self.buf[size:]
        return size

    def getvalue(self):
        self._ck()
        return mkbytes(self.buf)

    def flush(self):
        pass

    @property
    def closed(self):
        return self._closed

    def close(self):
        if not self._closed and self.on_close is not None:
            self.on_close(self)
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass


ZMAGIC = [0x78, 0x9C]


def zcompress(data, *a, **k):
    """Invertible stand-in for zlib.compress (self-delimiting framing)."""
    eng().st["stubs"].add("zlib.compress/decompress: invertible self-delimiting framing")
    e = bytes_elems(data)
    return mkbytes(ZMAGIC + list(len(e).to_bytes(4, "big")) + e)


def zdecompress(data, *a, **k):
    e = bytes_elems(data)
    z = ZDecompressObj()
    out = z.decompress(mkbytes(e))
    if not z.eof:
        raise zlib.error("Error -5 while decompressing data: incomplete or truncated stream")
    return out


class ZDecompressObj:
    def __init__(self, *a, **k):
        self.inp = []
        self.out = 0
        self.eof = False
        self.unused_data = b""
        self.unconsumed_tail = b""

    def decompress(self, data, max_length=0):
        e = bytes_elems(data)
        if self.eof:
            self.unused_data = self.unused_data + mkbytes(e)
            return b""
        self.inp.extend(e)
        for i, m in enumerate(ZMAGIC):
            if len(self.inp) > i and self.inp[i] != m:
                raise zlib.error("Error -3 while decompressing data: incorrect header check")
        if len(self.inp) < 6:
            return b""
        n = from_bytes(self.inp[2:6], "big", False)
        if not isinstance(n, int):
            n = n.__index__()
        avail = self.inp[6:6 + n]
        res = avail[self.out:]
        self.out = len(avail)
        if len(avail) == n:
            self.eof = True
            self.unused_data = mkbytes(self.inp[6 + n:])
        return mkbytes(res)

    def flush(self, *a):
        return b""
