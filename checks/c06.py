"""C06: fixed point numbers keep their value to the format's resolution."""

from checks.common import finish, reader, writer

FMTS = [(32, 32), (32, 8), (28, 4)]
BOUNDS = {
    "quick": "formats 32.32, 32.8 and 28.4; every multiple of the resolution in the whole range "
    "(32.32: every binary64-exact value m/2^31 with |m|<2^53 and every m/2^40), at every alignment",
    "thorough": "as quick",
}


def cases(tier):
    out = []
    for fi in range(len(FMTS)):
        for p in range(8):
            out.append({"k": "exact", "f": fi, "p": p})
            out.append({"k": "fine", "f": fi, "p": p})
            out.append({"k": "int", "f": fi, "p": p})
    return out


def run(ctx, case):
    ib, fb = FMTS[case["f"]]
    p = case["p"]
    res = 1 << (fb - 1)
    top = 1 << (ib - 1)
    # whole numbers down to -(top-1); -top would need an extra integer bit
    if case["k"] == "exact":
        lim = min(top * res, 1 << 53)
        val = ctx.flt("v", -lim + res, lim - 1, res)
    elif case["k"] == "fine":
        den = res * 512
        lim = min(top * den, 1 << 53)
        val = ctx.flt("v", -lim + den, lim - 1, den)
    else:
        val = ctx.int("v", -top + 1, top - 1)
    lead = ctx.u("lead", p) if p else 0
    tail = ctx.u("tail", 5)
    wr = writer()
    if p:
        wr.write(p, lead)
    wr.write_float(ib, fb, val)
    wr.write(5, tail)
    ctx.check(wr.bit_tell() == p + ib + fb + 5, "encoded size")
    data = finish(wr)
    rd = reader(data)
    if p:
        ctx.check(rd.read(p) == lead, "lead")
    got = rd.read_float(ib, fb)
    ctx.check(rd.read(5) == tail, "trailer")
    if case["k"] == "fine":
        # truncation towards minus infinity to the resolution
        d = val - got
        ctx.check(d >= 0.0, "rounded up")
        ctx.check(d * res < 1.0, "error of a full step or more")
    else:
        ctx.check(got == val, "value changed")
        # an independent reading of the encoded bits
        whole = int.from_bytes(data, "little") >> p
        sgn = whole & 1
        ipart = (whole >> 1) & (top - 1)
        fpart = (whole >> ib) & ((1 << fb) - 1)
        num = fpart + (0 - ipart if sgn == 1 else ipart) * res
        ctx.check(num == val * res, "encoded fields")
