"""C04: a writer driven by any mix of writes, aligns, seeks and flushes
produces exactly the stream a byte-buffer reference produces."""

import io

from dustmaker.bitio import BitIOWriter

BOUNDS = {
    "quick": "every op sequence of length 4 over {write 3/8/13 bits, write 2 bytes, align, flush, "
    "seek 0/16/40, skip 8/16, unaligned seek 19 with permission, unaligned seek without}, then a 10 bit write and close; sequences of length 3 over a larger set "
    "(64 bit writes, 7 byte blocks, backward skips, far seeks) on empty streams and over existing content starting at byte 0 or 2; arbitrary seek targets; writers used as context managers, left normally or by an error; all values",
    "thorough": "sequences of length 4 over the same operations and the larger set over existing content",
}
OUTSIDE = "longer sequences; streams that do not support seeking"
OPTS = {"quick": {"case": 120, "chunk": 64}, "thorough": {"case": 600, "chunk": 64}}

OPS = [("w", 3), ("w", 13), ("b", 2), ("align", 0), ("flush", 0), ("seek", 0), ("seek", 16),
       ("seek", 40), ("skip", 8), ("skip", 16), ("useek", 19), ("bad", 21), ("w", 8)]
WIDE = OPS + [("w", 64), ("b", 7), ("skip", -8), ("skip", -16), ("seek", 120), ("useek", 33), ("useek", 16), ("w", 1), ("b", 0), ("skip", 5)]


def cases(tier):
    n, m = len(OPS), len(WIDE)
    if tier == "quick":
        out = [{"k": "seq", "first": [i, j], "len": 4, "ops": n, "n": 0, "off": 0} for i in range(n) for j in range(n)]
        out += [{"k": "seq", "first": [i], "len": 3, "ops": m, "n": nn, "off": off} for i in range(m) for nn, off in ((0, 0), (9, 0), (9, 2))]
    else:
        out = [{"k": "seq", "first": [i, j], "len": 4, "ops": m, "n": nn, "off": off} for i in range(m) for j in range(m) for nn, off in ((0, 0), (9, 2))]
    for n in (0, 9):
        out.append({"k": "free", "n": n})
    out += [{"k": "with", "w": w, "err": e} for w in (1, 3, 8, 11, 20) for e in (False, True)]
    return out


def sequences(first, length, nops):
    if length == len(first):
        yield list(first)
        return
    for i in range(nops):
        for s in sequences(first + [i], length, nops):
            yield s


class Ref:
    """Reference stream: completed bytes plus the byte being assembled."""

    def __init__(self, content=b"", off=0):
        self.buf = list(content)
        self.pos = 8 * off
        self.cur = 0
        self.dirty = False

    def _put(self, byte):
        i = self.pos // 8
        while len(self.buf) <= i:
            self.buf.append(0)
        self.buf[i] = byte

    def write(self, w, v):
        v = v % (1 << w)
        while w > 0:
            off = self.pos % 8
            take = min(8 - off, w)
            self.cur = self.cur + ((v % (1 << take)) << off)
            self.dirty = True
            v = v >> take
            w -= take
            if off + take == 8:
                self._put(self.cur)
                self.cur = 0
                self.dirty = False
            self.pos += take

    def finish_byte(self):
        """Emit a partially filled byte, zero padded."""
        if self.pos % 8 != 0 and self.dirty:
            self._put(self.cur)
            self.pos = (self.pos + 7) // 8 * 8
        self.cur = 0
        self.dirty = False

    def align(self):
        self.finish_byte()
        self.pos = (self.pos + 7) // 8 * 8

    def seek(self, pos):
        self.finish_byte()
        self.pos = pos


def run_free(ctx, case):
    """Two writes at arbitrary byte positions over existing content."""
    old = ctx.bytes("old", case["n"])
    a, b = ctx.u("a", 11), ctx.s("b", 20)
    p, q = ctx.concrete(ctx.int("p", 0, 12)), ctx.concrete(ctx.int("q", 0, 12))
    buf = io.BytesIO()
    buf.write(old)
    buf.seek(0)
    wr = BitIOWriter(buf, noclose=True)
    ref = Ref(old)
    for pos, w, v in ((p, 11, a), (q, 20, b)):
        wr.bit_seek(8 * pos)
        ref.seek(8 * pos)
        ctx.check(wr.bit_tell() == 8 * pos, "position after seek")
        wr.write(w, v)
        ref.write(w, v)
        ctx.check(wr.bit_tell() == 8 * pos + w, "position after write")
    wr.close()
    ref.finish_byte()
    got = buf.getvalue()
    ctx.check(len(got) == len(ref.buf), "stream length")
    ctx.check(got == bytes(ref.buf), "stream content")


def run_with(ctx, case):
    """A writer used as a context manager is complete when the block ends, also by an error."""
    w = case["w"]
    v = ctx.u("v", w)
    buf = io.BytesIO()
    ref = Ref()
    try:
        with BitIOWriter(buf, noclose=True) as wr:
            wr.write(5, 21)
            wr.write(w, v)
            if case["err"]:
                raise KeyError("stop")
    except KeyError:
        pass
    ref.write(5, 21)
    ref.write(w, v)
    ref.finish_byte()
    ctx.check(buf.getvalue() == bytes(ref.buf), "stream content after the block")


def run(ctx, case):
    if case["k"] == "with":
        return run_with(ctx, case)
    if case["k"] == "free":
        return run_free(ctx, case)
    vals = {}
    for i in range(4):
        vals[("w", 3, i)] = ctx.s("a%d" % i, 3)
        vals[("w", 13, i)] = ctx.u("b%d" % i, 13)
        vals[("w", 8, i)] = ctx.u("e%d" % i, 8)
        vals[("w", 64, i)] = ctx.s("f%d" % i, 64)
        vals[("w", 1, i)] = ctx.u("g%d" % i, 1)
        vals[("b", 2, i)] = ctx.bytes("c%d" % i, 2)
        vals[("b", 7, i)] = ctx.bytes("h%d" % i, 7)
        vals[("b", 0, i)] = b""
    tail = ctx.u("tail", 10)
    old = ctx.bytes("old", case["n"])
    for seq in sequences(case["first"], case["len"], case["ops"]):
        ops = [WIDE[i] for i in seq]
        buf = io.BytesIO()
        buf.write(old)
        buf.seek(case["off"])
        wr = BitIOWriter(buf, noclose=True)
        ref = Ref(old, case["off"])
        for i, (op, arg) in enumerate(ops):
            if op == "w":
                v = vals[(op, arg, i)]
                wr.write(arg, v)
                ref.write(arg, v)
            elif op == "b":
                if arg == 0 and ref.pos % 8 != 0 and not ref.dirty:
                    # an empty write inside a byte nothing was written to yet: whether that
                    # counts as a write is left open
                    continue
                v = vals[(op, arg, i)]
                wr.write_bytes(v)
                for x in v:
                    ref.write(8, x)
            elif op == "align":
                wr.align()
                ref.align()
            elif op == "flush":
                wr.flush()
                ref.finish_byte()
            elif op == "seek":
                wr.bit_seek(arg)
                ref.seek(arg)
            elif op == "useek":
                wr.bit_seek(arg, allow_unaligned=True)
                ref.seek(arg)
            elif op == "skip":
                # relative to the position before any implied flush
                if (ref.pos + arg) % 8 != 0 or ref.pos + arg < 0:
                    continue
                tgt = ref.pos + arg
                wr.skip(arg)
                ref.seek(tgt)
            else:
                before = wr.bit_tell()
                failed = False
                try:
                    wr.bit_seek(arg)
                except RuntimeError:
                    failed = True
                ctx.check(failed, "%s: unaligned seek accepted" % ops)
                ctx.check(wr.bit_tell() == before, "%s: rejected seek moved the stream" % ops)
            ctx.check(wr.bit_tell() == ref.pos, "%s: reported position" % ops)
        wr.write(10, tail)
        ref.write(10, tail)
        ctx.check(wr.bit_tell() == ref.pos, "%s: final position" % ops)
        wr.close()
        ref.finish_byte()
        got = buf.getvalue()
        ctx.check(len(got) == len(ref.buf), "%s: stream length" % ops)
        ctx.check(got == bytes(ref.buf), "%s: stream content" % ops)
        wr.close()
        ctx.check(buf.getvalue() == got, "%s: closing twice emitted data" % ops)
