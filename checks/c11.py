"""C11: props survive writing and reading a level."""

from checks import levels as L
from dustmaker.level import Level

BOUNDS = {
    "quick": "1 prop with every attribute arbitrary at any position with |x|,|y| < 2^27 (1/16 px grid), any id 0..2^31-1, "
    "any layer, foreground or backdrop; each of the 56 representable scales; 2 props with arbitrary positions and ids; "
    "3 props with arbitrary positions in a 2x2 region area; 300 props in one segment",
    "thorough": "as quick with every pairing of sign quadrants for 3 props",
}
OUTSIDE = "scales between the representable steps (quantised by the format); zlib replaced by an identity codec"
LIM = 1 << 27


def cases(tier):
    out = [{"k": "one", "back": b, "frac": f} for b in (False, True) for f in (False, True)]
    out += [{"k": "scale", "lo": lo, "hi": lo + 7} for lo in range(0, 56, 8)]
    for q in ([0, 0], [3, 3], [2, 2], [1, 0], [3, 0]):
        for r in ("seg", "reg", "far", "back"):
            if q[0] != q[1] and r in ("seg", "reg"):
                continue
            out.append({"k": "two", "rel": r, "q": q})
    out.append({"k": "many"})
    out.append({"k": "three", "q": [0, 0, 0]})
    out.append({"k": "three", "q": [3, 3, 0]})
    if tier != "quick":
        for a in range(4):
            for b in range(4):
                out.append({"k": "three", "q": [a, b, 0]})
    return out


def trunc(num, den):
    """Position the format keeps: the whole pixel towards zero."""
    return num // den if num >= 0 else -((-num) // den)


def expect(ctx, props, wants, msg):
    ctx.check(len(props) == len(wants), "number of props")
    for id_num, layer, x, y, want in wants:
        got = props.get(id_num)
        ctx.check(got is not None, msg + ": prop lost its id")
        if got is None:
            continue
        ctx.check(got[0] == layer, msg + ": layer")
        ctx.check(got[1] == x, msg + ": x position")
        ctx.check(got[2] == y, msg + ": y position")
        L.check_prop(ctx, got[3], want, msg)


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "one":
        den = 16 if case["frac"] else 1
        nx = ctx.int("x", -LIM * den + 1, LIM * den - 1)
        ny = ctx.int("y", -LIM * den + 1, LIM * den - 1)
        idn = ctx.u("id", 31)
        layer = ctx.u("layer", 8)
        p = L.prop(ctx, "p")
        want = L.snap_prop(p)
        dest = lev.backdrop if case["back"] else lev
        x, y = nx / den, ny / den
        ctx.check(dest.add_prop(layer, x, y, p, idn) == idn, "id returned")
        got = L.round_trip(lev)
        back, other = (got.backdrop, got) if case["back"] else (got, got.backdrop)
        ctx.check(len(other.props) == 0, "prop appeared in the other layer set")
        expect(ctx, back.props, [(idn, layer, trunc(nx, den), trunc(ny, den), want)], "prop")
        return
    if k == "scale":
        e = ctx.concrete(ctx.int("e", case["lo"], case["hi"]))
        scale = 50.0 ** ((e - 32) / 24.0)
        p = L.prop(ctx, "p", scale)
        want = L.snap_prop(p)
        lev.add_prop(17, 100.0, -40.0, p, 7)
        got = L.round_trip(lev)
        expect(ctx, got.props, [(7, 17, 100, -40, want)], "prop")
        return
    wants = []
    if k == "many":
        for i in range(300):
            p = L.prop(ctx, "p%d" % i) if i in (0, 299) else L.Prop(i % 25, i * 7, i % 2 == 0, i % 3 == 0, 1.0, i % 8, i, i * 3, i % 10)
            lev.add_prop(i % 20, float(-i), float(i), p, 500 + i)
            wants.append((500 + i, i % 20, -i, i, L.snap_prop(p)))
        got = L.round_trip(lev)
        expect(ctx, got.props, wants, "prop")
        return
    n = 3 if k == "three" else 2
    # position = 48 * tile + offset, on either side of zero
    pts, cell = [], []
    for i in range(n):
        sx = case["q"][i] & 1
        sy = case["q"][i] >> 1
        lim = 300 if k == "three" else (LIM // 48 - 1)
        tx, ty = ctx.int("tx%d" % i, 0, lim), ctx.int("ty%d" % i, 0, lim)
        x = 48 * tx + ctx.int("ox%d" % i, 0, 47)
        y = 48 * ty + ctx.int("oy%d" % i, 0, 47)
        pts.append((-x if sx else x, -y if sy else y, ctx.u("id%d" % i, 31)))
        cell.append((-tx if sx else tx, -ty if sy else ty))
    for i in range(n):
        for j in range(i):
            if case.get("rel") != "back":
                ctx.assume(pts[i][2] != pts[j][2])
    if k == "two":
        segs = [(tx // 16, ty // 16) for tx, ty in cell]
        regs = [(tx // 256, ty // 256) for tx, ty in cell]
        if case["rel"] == "seg":
            ctx.assume(segs[0][0] == segs[1][0] and segs[0][1] == segs[1][1])
        elif case["rel"] == "reg":
            ctx.assume(regs[0][0] == regs[1][0] and regs[0][1] == regs[1][1])
            ctx.assume(segs[0][0] != segs[1][0] or segs[0][1] != segs[1][1])
        elif case["rel"] == "far":
            ctx.assume(regs[0][0] != regs[1][0] or regs[0][1] != regs[1][1])
    backs = []
    for i, (x, y, idn) in enumerate(pts):
        p = L.prop(ctx, "p%d" % i)
        dest, lst = (lev.backdrop, backs) if case.get("rel") == "back" and i == 1 else (lev, wants)
        dest.add_prop(3 + i, x / 1, y / 1, p, idn)
        lst.append((idn, 3 + i, x, y, L.snap_prop(p)))
    got = L.round_trip(lev)
    expect(ctx, got.props, wants, "prop")
    expect(ctx, got.backdrop.props, backs, "backdrop prop")
