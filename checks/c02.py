"""C02: the bit layout is LSB first / little endian, on both sides."""

from checks.common import finish, reader, writer

BOUNDS = {
    "quick": "writer: every pair of fields (lead 0..24 bits, field of 1..136 bits, signed or unsigned) "
    "and byte blocks of up to 4, 9, 33 and 130 bytes at every alignment, all values; reader: every field of "
    "1..136 bits at every bit offset 0..40 of an arbitrary byte string, signed and unsigned",
    "thorough": "as quick with fields up to 264 bits, lead up to 40 bits and offsets up to 56",
}
OUTSIDE = "fields wider than the bound; values that do not fit the field"


def cases(tier):
    q = tier == "quick"
    out = []
    for p in range(0, 25 if q else 41):
        out.append({"k": "w", "p": p, "top": 136 if q else 264})
    for p in range(0, 41 if q else 57):
        out.append({"k": "r", "p": p, "top": 136 if q else 264})
    return out


def run_block(ctx, p, lead, n):
    b = ctx.bytes("b%d" % n, n)
    wr = writer()
    if p:
        wr.write(p, lead)
    wr.write_bytes(b)
    data = finish(wr)
    want = (lead + (int.from_bytes(b, "little") << p)).to_bytes((p + 8 * n + 7) // 8, "little")
    ctx.check(data == want, "layout of %d bytes after %d bits" % (n, p))


def read_block(ctx, p, data, whole, m):
    rd = reader(data)
    if p:
        rd.read(p)
    got = rd.read_bytes(m)
    ctx.check(len(got) == m, "byte block length")
    want = (whole >> p) & ((1 << (8 * m)) - 1)
    ctx.check(int.from_bytes(got, "little") == want, "byte block of %d at bit %d" % (m, p))
    ctx.check(rd.bit_tell() == p + 8 * m, "position after block")


def run(ctx, case):
    p, top = case["p"], case["top"]
    if case["k"] == "w":
        lead = ctx.u("lead", p) if p else 0
        items = [("int", w) for w in range(1, top + 1)] + [("bytes", n) for n in (0, 1, 2, 3, 4, 9, 33, 130)]
        for kind, w in ctx.each("item", items):
            if kind == "bytes":
                run_block(ctx, p, lead, w)
                continue
            for signed in (False, True):
                nm = "v%d%s" % (w, "s" if signed else "u")
                v = ctx.s(nm, w) if signed else ctx.u(nm, w)
                wr = writer()
                if p:
                    wr.write(p, lead)
                wr.write(w, v)
                data = finish(wr)
                enc = v % (1 << w)
                want = (lead + (enc << p)).to_bytes((p + w + 7) // 8, "little")
                ctx.check(data == want, "layout of a %d bit field after %d bits" % (w, p))
    else:
        n = (p + top + 7) // 8 + 1
        data = ctx.bytes("d", n)
        whole = int.from_bytes(data, "little")
        items = [("int", w) for w in range(1, top + 1)] + [("bytes", m) for m in range(0, 4)]
        for kind, w in ctx.each("item", items):
            if kind == "bytes":
                read_block(ctx, p, data, whole, w)
                continue
            want = (whole >> p) & ((1 << w) - 1)
            rd = reader(data)
            if p:
                ctx.check(rd.read(p) == (whole & ((1 << p) - 1)), "lead value")
            ctx.check(rd.read(w) == want, "unsigned read of %d bits at bit %d" % (w, p))
            ctx.check(rd.bit_tell() == p + w, "position")
            rd = reader(data)
            if p:
                rd.read(p)
            got = rd.read(w, True)
            neg = ((whole >> (p + w - 1)) & 1) == 1
            ctx.check(got == (want - (1 << w) if neg else want), "signed read of %d bits at bit %d" % (w, p))
