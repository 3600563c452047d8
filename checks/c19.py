"""C19: transformation matrices compose, translate and sample as affine maps."""

from dustmaker.transform import TxMatrix

BOUNDS = {
    "quick": "linear parts with arbitrary entries in -8..7, offsets and points 8..12 bit "
    "signed with quarter fractions; products of up to three matrices out of the 8 axis-aligned ones with arbitrary "
    "10 bit offsets; scalars -8..7",
    "thorough": "wider entries: -16..15",
}
OUTSIDE = "entries needing more than 53 bits (binary64 rounding); scale of matrices that are not axis-aligned, beyond 12 of them; the angle attribute (used and judged through the entity and prop rotations of C22)"
SHEAR = ((1, 1, 0, 1), (2, 0, 0, 1), (3, 1, 1, 3), (0, 2, -3, 0), (1, 2, 2, 4), (0, 0, 0, 0), (-1, 5, 2, 3), (0.5, 0, 0, 8), (4, 0, 1, -4),
         (3, -4, 4, 3), (-3, 4, 4, 3), (1.25, 0.5, -2.0, 3.0))
I3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def cases(tier):
    w = 1 if tier == "quick" else 2
    out = [{"k": "product", "w": w}, {"k": "translate", "w": w}, {"k": "scalar", "w": w}, {"k": "sample", "w": w},
           {"k": "det", "w": w}, {"k": "axis"}, {"k": "consts"}, {"k": "reject"}, {"k": "rows"}]
    out += [{"k": k, "w": 14} for k in ("product", "translate", "scalar", "sample", "det")]
    out += [{"k": "fraction"}, {"k": "shear"}]
    for i in range(8):
        for j in range(8):
            out.append({"k": "axis2", "i": i, "j": j, "w": w})
    return out


def axis(i):
    """The 8 axis-aligned linear maps: i % 4 clockwise quarter turns after a horizontal flip when i >= 4."""
    a, b, c, d = ((1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0))[i % 4]
    return (-a, b, -c, d) if i >= 4 else (a, b, c, d)


def mat(ctx, name, bits, obits, frac=True):
    e = [ctx.s("%s.%d" % (name, i), bits) for i in range(4)]
    o = [ctx.flt("%s.o%d" % (name, i), -(1 << (obits - 1)), (1 << (obits - 1)) - 1, 4) if frac
         else ctx.s("%s.o%d" % (name, i), obits) for i in range(2)]
    return ((e[0], e[1], o[0]), (e[2], e[3], o[1]), (0, 0, 1))


def apply(m, x, y):
    return m[0][0] * x + m[0][1] * y + m[0][2], m[1][0] * x + m[1][1] * y + m[1][2]


def mul(a, b):
    return tuple(tuple(sum([a[i][k] * b[k][j] for k in range(3)]) for j in range(3)) for i in range(3))


def same(ctx, got, want, msg):
    ctx.check(len(got) == 3 and all([len(r) == 3 for r in got]), msg + ": 3x3")
    for i in range(3):
        for j in range(3):
            ctx.check(got[i][j] == want[i][j], "%s: entry %d,%d" % (msg, i, j))


def run(ctx, case):
    k = case["k"]
    w = case.get("w", 0)
    if k == "product":
        a, b = mat(ctx, "a", 3 + w, 8, True), mat(ctx, "b", 3 + w, 8, True)
        got = TxMatrix(a) * TxMatrix(b)
        same(ctx, got, mul(a, b), "product")
        ctx.check(isinstance(got, TxMatrix), "product type")
        return
    if k == "translate":
        a = mat(ctx, "a", 4 + w, 16, True)
        tx, ty = ctx.flt("tx", -30000, 30000, 8), ctx.flt("ty", -30000, 30000, 8)
        want = ((a[0][0], a[0][1], a[0][2] + tx), (a[1][0], a[1][1], a[1][2] + ty), (0, 0, 1))
        same(ctx, TxMatrix(a).translate(tx, ty), want, "translate")
        same(ctx, TxMatrix.IDENTITY.translate(tx, ty) * TxMatrix(a), want, "translation times matrix")
        return
    if k == "scalar":
        a = mat(ctx, "a", 4 + w, 10, True)
        f = ctx.s("f", 4)
        want = tuple(tuple(v * f for v in a[i]) for i in range(2)) + ((0, 0, 1),)
        same(ctx, TxMatrix(a) * f, want, "scalar product")
        same(ctx, f * TxMatrix(a), want, "scalar product from the left")
        return
    if k == "fraction":
        a = mat(ctx, "a", 8, 10, True)
        f = ctx.flt("f", -16, 16, 4)
        want = tuple(tuple(v * f for v in a[i]) for i in range(2)) + ((0, 0, 1),)
        same(ctx, TxMatrix(a) * f, want, "fractional scalar product")
        same(ctx, f * TxMatrix(a), want, "fractional scalar product from the left")
        return
    if k == "sample":
        a = mat(ctx, "a", 4 + w, 16, True)
        x, y = ctx.flt("x", -(1 << 11), 1 << 11, 4), ctx.flt("y", -(1 << 11), 1 << 11, 4)
        m = TxMatrix(a)
        sx, sy = m.sample(x, y)
        wx, wy = apply(a, x, y)
        ctx.check(sx == wx, "sample x")
        ctx.check(sy == wy, "sample y")
        sx, sy = m.sample(x, y, with_offset=False)
        ctx.check(sx == wx - a[0][2], "sample x without offset")
        ctx.check(sy == wy - a[1][2], "sample y without offset")
        return
    if k == "det":
        a = mat(ctx, "a", 6 + 2 * w, 8, True)
        m = TxMatrix(a)
        d = a[0][0] * a[1][1] - a[0][1] * a[1][0]
        ctx.check(m.determinant == d, "determinant")
        ctx.check(m.flipped == (d < 0), "flipped")
        return
    if k == "axis":
        i = ctx.concrete(ctx.int("i", 0, 7))
        s = (1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 100, 1000, 0.5, 0.25, 0.75, 1.5, 2.5)[ctx.concrete(ctx.int("s", 0, 16))]
        ox, oy = ctx.s("ox", 12), ctx.s("oy", 12)
        a, b, c, d = axis(i)
        m = TxMatrix(((a * s, b * s, ox), (c * s, d * s, oy), (0, 0, 1)))
        ctx.check(m.scale == s, "scale")
        ctx.check(m.flipped == (i >= 4), "flipped")
        return
    if k == "shear":
        i = ctx.concrete(ctx.int("i", 0, len(SHEAR) - 1))
        a, b, c, d = SHEAR[i]
        m = TxMatrix(((a, b, ctx.s("ox", 12)), (c, d, ctx.s("oy", 12)), (0, 0, 1)))
        det = a * d - b * c
        s = m.scale
        ctx.check(s >= 0 and -1e-9 < s * s - abs(det) < 1e-9, "scale is the square root of the area factor")
        ctx.check(m.flipped == (det < 0) and m.determinant == det, "determinant and flip")
        return
    if k == "axis2":
        a1, b1, c1, d1 = axis(case["i"])
        a2, b2, c2, d2 = axis(case["j"])
        o = [ctx.s("o%d" % i, 10) for i in range(4)]
        x, y = ctx.s("x", 12), ctx.s("y", 12)
        p = TxMatrix(((a1, b1, o[0]), (c1, d1, o[1]), (0, 0, 1)))
        q = TxMatrix(((a2, b2, o[2]), (c2, d2, o[3]), (0, 0, 1)))
        px, py = q.sample(x, y)
        wx, wy = p.sample(px, py)
        gx, gy = (p * q).sample(x, y)
        ctx.check(gx == wx, "composition (x)")
        ctx.check(gy == wy, "composition (y)")
        gx, gy = (p * q * q).sample(x, y)
        qx, qy = q.sample(px, py)
        wx, wy = p.sample(qx, qy)
        ctx.check(gx == wx, "triple composition (x)")
        ctx.check(gy == wy, "triple composition (y)")
        ctx.check((p * q).flipped == (p.flipped != q.flipped), "flips compose")
        return
    if k == "rows":
        # matrices given as lists, generators or other matrices; the source may change afterwards
        a = mat(ctx, "a", 4, 8, True)
        rows = [list(r) for r in a]
        m, n, o = TxMatrix(rows), TxMatrix(a), TxMatrix(r for r in a)
        rows[0][0] = rows[1][2] = 99
        rows.append([1, 2, 3])
        for t in (m, n, o, TxMatrix(m)):
            ctx.check(len(t) == 3, "three rows")
            for i in range(3):
                for j in range(3):
                    ctx.check(t[i][j] == a[i][j], "entry %d,%d" % (i, j))
        c = ((1, 2, 3.5), (4, 5, 6), (0, 0, 1))
        m, n = TxMatrix([list(r) for r in c]), TxMatrix(c)
        ctx.check(m == n and hash(m) == hash(n), "equal matrices")
        return
    if k == "consts":
        x, y = ctx.s("x", 16), ctx.s("y", 16)
        pts = {
            "identity": (TxMatrix.IDENTITY.sample(x, y), (x, y)),
            "horizontal flip": (TxMatrix.HFLIP.sample(x, y), (-x, y)),
            "vertical flip": (TxMatrix.VFLIP.sample(x, y), (x, -y)),
            "no turn": (TxMatrix.ROTATE[0].sample(x, y), (x, y)),
            # y points down, so a clockwise quarter turn takes right to down and down to left
            "one turn": (TxMatrix.ROTATE[1].sample(x, y), (-y, x)),
            "two turns": (TxMatrix.ROTATE[2].sample(x, y), (-x, -y)),
            "three turns": (TxMatrix.ROTATE[3].sample(x, y), (y, -x)),
        }
        for name, (got, want) in pts.items():
            ctx.check(got[0] == want[0], name + " (x)")
            ctx.check(got[1] == want[1], name + " (y)")
        ctx.check(len(TxMatrix.ROTATE) == 4, "four rotations")
        return
    # not affine: refused
    v = [ctx.s("v%d" % i, 3) for i in range(3)]
    rows = ((1, 0, 0), (0, 1, 0), (v[0], v[1], v[2]))
    try:
        TxMatrix(rows)
        ok = True
    except AssertionError:
        ok = False
    ctx.check(ok == (v[0] == 0 and v[1] == 0 and v[2] == 1), "last row")
