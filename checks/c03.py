"""C03: a reader positioned by any mix of reads, seeks, skips and aligns sees
the bits at its reported position."""

import io

from checks.common import reader
from dustmaker.bitio import BitIOReader

BOUNDS = {
    "quick": "10 byte arbitrary content; every op sequence of length 4 over "
    "{read 3/11, signed read 5, read_bytes 1/2, seek 0/5/16/19, skip 4/-3/13, align}, then a 12 bit read; sequences of length 3 over a larger set "
    "with reads up to 64 bits and 6 bytes over 24 byte content; arbitrary seek targets and skips (two in a row) with reads between; streams not starting at byte 0",
    "thorough": "12 byte arbitrary content, sequences of length 4 over the larger op set",
}
OUTSIDE = "positions past the end of the stream; sequences longer than the bound"
OPTS = {"quick": {"case": 120, "chunk": 64}, "thorough": {"case": 600, "chunk": 64}}

QUICK = [("read", 3), ("read", 11), ("sread", 5), ("bytes", 1), ("bytes", 2), ("seek", 0), ("seek", 5),
         ("seek", 16), ("seek", 19), ("skip", 4), ("skip", -3), ("skip", 13), ("align", 0)]
MORE = QUICK + [("read", 8), ("read", 1), ("sread", 1), ("seek", 23), ("skip", 8), ("skip", -8)]
WIDE = MORE + [("read", 64), ("sread", 33), ("bytes", 6), ("seek", 70), ("seek", 121), ("skip", 49), ("skip", -40), ("read", 0), ("skip", 0), ("bytes", 0)]


def cases(tier):
    n = len(QUICK)
    if tier == "quick":
        out = [{"k": "seq", "first": [i, j], "len": 4, "ops": n, "n": 10} for i in range(n) for j in range(n)]
    else:
        n = len(MORE)
        out = [{"k": "seq", "first": [i, j], "len": 4, "ops": n, "n": 12} for i in range(n) for j in range(n)]
    out += [{"k": "seq", "first": [i], "len": 3, "ops": len(WIDE), "n": 24} for i in range(len(WIDE))]
    for w in (1, 7, 8, 20):
        for off in (0, 3):
            out.append({"k": "free", "w": w, "off": off})
            out.append({"k": "skips", "w": w, "off": off})
    return out


def sequences(first, length, nops):
    if length == len(first):
        yield list(first)
        return
    for i in range(nops):
        for s in sequences(first + [i], length, nops):
            yield s


def run_free(ctx, case):
    """Arbitrary absolute positions."""
    off, w = case["off"], case["w"]
    body = ctx.bytes("d", 8)
    whole = int.from_bytes(b"\x33" * off + body, "little")
    src = io.BytesIO(b"\x33" * off + body)
    src.seek(off)
    rd = BitIOReader(src, noclose=True)
    ctx.check(rd.bit_tell() == 8 * off, "start position")
    ctx.check(rd.read(5) == (whole >> 8 * off) % 32, "first bits")
    for name, lo, hi in (("p", 0, 8 * (off + 5)), ("q", 8 * off, 8 * off + 17)):
        pos = ctx.concrete(ctx.int(name, lo, hi))
        rd.bit_seek(pos)
        ctx.check(rd.bit_tell() == pos, "position after seek")
        ctx.check(rd.aligned() == (pos % 8 == 0), "aligned after seek")
        ctx.check(rd.read(w) == (whole >> pos) % (1 << w), "read after seek")
        ctx.check(rd.bit_tell() == pos + w, "position after read")
    rd.align()
    pos = (pos + w + 7) // 8 * 8
    ctx.check(rd.bit_tell() == pos, "position after align")
    ctx.check(rd.read(3) == (whole >> pos) % 8, "read after align")


def run_skips(ctx, case):
    """Arbitrary relative moves, directly after each other and after reads."""
    off, w = case["off"], case["w"]
    body = ctx.bytes("d", 12)
    whole = int.from_bytes(b"\x33" * off + body, "little")
    src = io.BytesIO(b"\x33" * off + body)
    src.seek(off)
    rd = BitIOReader(src, noclose=True)
    rd.read(19)
    pos = 8 * off + 19
    a = ctx.concrete(ctx.int("a", -19, 20))
    rd.skip(a)
    pos += a
    ctx.check(rd.bit_tell() == pos, "position after skip")
    if w != 8:
        ctx.check(rd.read(w) == (whole >> pos) % (1 << w), "read after skip")
        pos += w
    b = ctx.concrete(ctx.int("b", -9, 9))
    if pos + b < 8 * off:
        return
    rd.skip(b)
    pos += b
    ctx.check(rd.bit_tell() == pos, "position after second skip")
    ctx.check(rd.read_bytes(2) == ((whole >> pos) % 65536).to_bytes(2, "little"), "bytes after second skip")
    ctx.check(rd.bit_tell() == pos + 16, "final position")


def run(ctx, case):
    if case["k"] != "seq":
        return globals()["run_" + case["k"]](ctx, case)
    data = ctx.bytes("d", case["n"])
    whole = int.from_bytes(data, "little")
    end = 8 * case["n"]
    for seq in ctx.each("seq", sequences(case["first"], case["len"], case["ops"])):
        ops = [WIDE[i] for i in seq]
        rd = reader(data)
        pos = 0
        ok = True
        for op, arg in ops:
            if op in ("read", "sread", "bytes"):
                w = 8 * arg if op == "bytes" else arg
                if pos + w > end:
                    ok = False
                    break
                want = (whole >> pos) & ((1 << w) - 1)
                if op == "read":
                    ctx.check(rd.read(w) == want, "%s: read" % ops)
                elif op == "sread":
                    neg = ((whole >> (pos + w - 1)) & 1) == 1
                    got = rd.read(w, True)
                    ctx.check(got == (want - (1 << w) if neg else want), "%s: signed read" % ops)
                else:
                    got = rd.read_bytes(arg)
                    ctx.check(got == want.to_bytes(arg, "little"), "%s: read_bytes" % ops)
                pos += w
            elif op == "seek":
                rd.bit_seek(arg)
                pos = arg
            elif op == "skip":
                if pos + arg < 0 or pos + arg > end:
                    ok = False
                    break
                rd.skip(arg)
                pos += arg
            else:
                rd.align()
                pos = (pos + 7) // 8 * 8
            ctx.check(rd.bit_tell() == pos, "%s: reported position" % ops)
            ctx.check(rd.aligned() == (pos % 8 == 0), "%s: aligned()" % ops)
        if not ok or pos + 12 > end:
            continue
        ctx.check(rd.read(12) == ((whole >> pos) & 0xFFF), "%s: content at the final position" % ops)
