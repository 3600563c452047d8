"""C01: whatever is written to a bit stream is read back."""

import io

from checks.common import finish, reader, writer
from dustmaker.bitio import BitIOReader, BitIOWriter

BOUNDS = {
    "quick": "lead-in of 0..7 bits, one integer of every width 1..136 and 191..1025 (samples; unsigned or signed) or a block of 0..12, 16, 17, 31..33, 63..65, "
    "100, 127..129, 255..257, 300, 1000, 1024, 4097 and 8193 bytes (65537 at a byte boundary) (arbitrary bytes at both ends and at powers of two from 16 on), then a trailer; pairs of widths up to 12; "
    "chains of seven mixed fields, read back in the same or other portions; streams that start at a later byte; all values",
    "thorough": "as quick with every pair of widths up to 24, every width up to 300 and blocks up to 20000 bytes",
}
OUTSIDE = "widths and sizes beyond the listed ones; values that do not fit their field"
OPTS = {"quick": {"case": 120, "chunk": 64, "steps": 6000000}, "thorough": {"case": 600, "chunk": 64, "steps": 6000000}}
WIDE = [191, 192, 193, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025]
SIZES = [16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4097]
CHAINS = [
    [("s", 5), ("b", 3), ("u", 1), ("u", 33), ("b", 1), ("s", 2), ("u", 64)],
    [("u", 7), ("u", 9), ("u", 16), ("b", 9), ("s", 31), ("s", 32), ("u", 3)],
    [("b", 2), ("u", 3), ("b", 8), ("u", 5), ("b", 4), ("u", 12), ("b", 5)],
    [("u", 1), ("u", 1), ("s", 8), ("s", 8), ("u", 40), ("b", 7), ("b", 6)],
    [("s", 1), ("u", 2), ("s", 3), ("u", 4), ("s", 5), ("u", 6), ("s", 7)],
    [("u", 65), ("s", 66), ("b", 16), ("u", 1), ("b", 17), ("u", 71), ("s", 13)],
]


def cases(tier):
    q = tier == "quick"
    out = []
    for p in range(8):
        for signed in (False, True):
            for lo in range(1, 137 if q else 301, 34):
                out.append({"k": "int", "p": p, "ws": list(range(lo, lo + 34)), "signed": signed})
            out.append({"k": "int", "p": p, "ws": WIDE, "signed": signed})
        out.append({"k": "bytes", "p": p, "ns": list(range(13))})
        for n in SIZES + [8193] + ([65537] if p == 0 else []) + ([] if q else [8191, 16385, 20000]):
            out.append({"k": "bytes", "p": p, "ns": [n]})
        for c in range(len(CHAINS)):
            out.append({"k": "chain", "p": p, "c": c, "off": (p * 5 + c) % 4})
    top = 12 if q else 24
    for w1 in range(1, top + 1):
        out.append({"k": "pair", "w1": w1, "top": top})
    return out


def run(ctx, case):
    globals()["run_" + case["k"]](ctx, case)


def block(ctx, name, n):
    """n bytes, arbitrary at both ends and around powers of two, a fixed pattern elsewhere."""
    if n <= 12:
        return ctx.bytes(name, n)
    out, pos = b"", 0
    spots = sorted({0, n - 2} | {1 << k for k in range(4, 16) if (1 << k) + 2 < n})
    for s in spots:
        out = out + bytes([(i * 37 + 11) % 256 for i in range(pos, s)]) + ctx.bytes("%s.%d" % (name, s), 2)
        pos = s + 2
    return out


def run_chain(ctx, case):
    """Several fields in a row, read back in the same portions and as single bits and bytes."""
    p, off = case["p"], case["off"]
    chain = ([("u", p)] if p else []) + CHAINS[case["c"]]
    vals = [ctx.u("v%d" % i, n) if t == "u" else ctx.s("v%d" % i, n) if t == "s" else ctx.bytes("v%d" % i, n) for i, (t, n) in enumerate(chain)]
    buf = io.BytesIO()
    buf.write(b"\xa5" * off)
    wr = BitIOWriter(buf, noclose=True)
    total, pos = 0, 8 * off
    for (t, n), v in zip(chain, vals):
        ctx.check(wr.bit_tell() == pos, "writer position")
        if t == "b":
            wr.write_bytes(v)
            total += int.from_bytes(v, "little") << (pos - 8 * off)
            pos += 8 * n
        else:
            wr.write(n, v)
            total += (v % (1 << n)) << (pos - 8 * off)
            pos += n
    wr.close()
    data = buf.getvalue()
    ctx.check(len(data) == (pos + 7) // 8, "stream length")
    ctx.check(data[:off] == b"\xa5" * off, "data before the start")
    src = io.BytesIO(data)
    src.seek(off)
    rd = BitIOReader(src, noclose=True)
    for i, ((t, n), v) in enumerate(zip(chain, vals)):
        got = rd.read_bytes(n) if t == "b" else rd.read(n, t == "s")
        ctx.check(got == v, "field %d" % i)
    ctx.check(rd.bit_tell() == pos, "reader position")
    for step in ctx.each("step", ([9, 1, 15], [8], [64, 7], [3, 21, 40])):
        src.seek(off)
        rd = BitIOReader(src, noclose=True)
        at, k = 8 * off, 0
        while at < pos:
            n = min(step[k % len(step)], pos - at)
            ctx.check(rd.read(n) == (total >> (at - 8 * off)) % (1 << n), "read in other portions")
            at += n
            k += 1


def run_int(ctx, case):
    p = case["p"]
    signed = case["signed"]
    lead = ctx.u("lead", p) if p else 0
    tail = ctx.u("tail", 13)
    for w in ctx.each("w", case["ws"]):
        v = ctx.s("v%d" % w, w) if signed else ctx.u("v%d" % w, w)
        wr = writer()
        if p:
            wr.write(p, lead)
        wr.write(w, v)
        wr.write(13, tail)
        data = finish(wr)
        ctx.check(len(data) == (p + w + 13 + 7) // 8, "stream length")
        rd = reader(data)
        if p:
            ctx.check(rd.read(p) == lead, "lead")
        ctx.check(rd.read(w, signed) == v, "value width %d" % w)
        ctx.check(rd.read(13) == tail, "trailer")
        ctx.check(rd.bit_tell() == p + w + 13, "position")


def run_bytes(ctx, case):
    p = case["p"]
    lead = ctx.u("lead", p) if p else 0
    tail = ctx.s("tail", 11)
    for n in ctx.each("n", case["ns"]):
        v = block(ctx, "b%d" % n, n)
        wr = writer()
        if p:
            wr.write(p, lead)
        wr.write_bytes(v)
        wr.write(11, tail)
        data = finish(wr)
        rd = reader(data)
        if p:
            ctx.check(rd.read(p) == lead, "lead")
        got = rd.read_bytes(n)
        ctx.check(len(got) == n, "number of bytes")
        ctx.check(got == v, "bytes")
        ctx.check(rd.read(11, True) == tail, "trailer")


def run_pair(ctx, case):
    """Neighbouring narrow fields never disturb each other; a field may be
    read back in two parts and two fields in one piece."""
    w1 = case["w1"]
    for w2 in ctx.each("w2", range(1, case["top"] + 1)):
        a = ctx.s("a%d" % w2, w1)
        b = ctx.u("b%d" % w2, w2)
        c = ctx.s("c%d" % w2, 3)
        wr = writer()
        wr.write(w1, a)
        wr.write(w2, b)
        wr.write(3, c)
        data = finish(wr)
        rd = reader(data)
        ctx.check(rd.read(w1, True) == a, "first")
        ctx.check(rd.read(w2) == b, "second")
        ctx.check(rd.read(3, True) == c, "third")
        rd = reader(data)
        both = rd.read(w1 + w2)
        ctx.check((both >> w1) == b, "joined high part")
        ctx.check((both & ((1 << w1) - 1)) == a % (1 << w1), "joined low part")
        ctx.check(rd.read(3, True) == c, "after joined")
        rd = reader(data)
        h = (w1 + w2) // 2
        lo = rd.read(h)
        hi = rd.read(w1 + w2 - h)
        ctx.check(lo + (hi << h) == both, "split read")
