"""C21: upscaling a tile gives a grid of tiles with exactly the enlarged outline and edges."""

from checks import geom, levels as L
from dustmaker.tile import TileShape
from dustmaker.transform import TxMatrix

BOUNDS = {
    "quick": "all 21 shapes, factors 1..8, all edge and sprite attributes arbitrary (angles -127..127)",
    "thorough": "factors 1..16",
}
OUTSIDE = "tile_flags (always 4 in practice); edges that lie on a half-length side, which carries no edge in the original; larger factors"
GRID = [(6 * i + 5, 6 * j + 2) for i in range(16) for j in range(16)]  # 1/48 half tiles; never on an outline


def cases(tier):
    return [{"s": s, "f": f} for s in range(21) for f in range(1, 9 if tier == "quick" else 17)]


def expected_shape(shape, f, dx, dy):
    """Shape filling a cell of the enlarged outline, None when empty."""
    pts = [geom.inside(shape, 96 * dx + x, 96 * dy + y, 48 * f) for x, y in GRID]
    if not any(pts):
        return None
    for s in range(21):
        if [geom.inside(s, x, y, 48) for x, y in GRID] == pts:
            return s
    return -1


def on_side(shape, f, a, b):
    """Original side (enlarged) that contains the clockwise segment a-b, with flags whether it ends there."""
    for s in range(4):
        p, q = geom.ends(shape, s)
        if p == q:
            continue
        p, q = (p[0] * f, p[1] * f), (q[0] * f, q[1] * f)
        if all([(q[0] - p[0]) * (v[1] - p[1]) == (q[1] - p[1]) * (v[0] - p[0]) for v in (a, b)]):
            dot = (q[0] - p[0]) * (b[0] - a[0]) + (q[1] - p[1]) * (b[1] - a[1])
            if dot > 0:
                return s, a == p, b == q
    return None, False, False


def run(ctx, case):
    shape, f = case["s"], case["f"]
    t = L.tile(ctx, "t", shape=shape)
    for e in t.edge_data:
        for a in e.angles + e.filth_angles:
            ctx.assume(a != -128)
    snap = L.snap_tile(t)
    got = {}
    for dx, dy, nt in t.upscale(f):
        ctx.check((dx, dy) not in got, "each cell once")
        ctx.check(0 <= dx < f and 0 <= dy < f, "cell within the grid")
        got[(dx, dy)] = nt
    for dx in range(f):
        for dy in range(f):
            want = expected_shape(shape, f, dx, dy)
            ctx.check(want != -1, "outline is made of tile shapes")
            nt = got.get((dx, dy))
            ctx.check((nt is None) == (want is None), "cell %d,%d filled" % (dx, dy))
            if nt is None or want is None:
                continue
            ctx.check(nt.shape == want, "cell %d,%d shape" % (dx, dy))
            ctx.check(nt is not t, "a new tile")
            for k in ("sprite_set", "sprite_tile", "sprite_palette"):
                ctx.check(getattr(nt, k) == snap[k], "cell " + k)
            for side in range(4):
                if not geom.exists(want, side):
                    continue
                a, b = geom.ends(want, side)
                a, b = (a[0] + 2 * dx, a[1] + 2 * dy), (b[0] + 2 * dx, b[1] + 2 * dy)
                s, first, last = on_side(shape, f, a, b)
                msg = "cell %d,%d %s edge" % (dx, dy, L.SIDES[side])
                ed = nt.edge_data[side]
                if s is None:
                    ctx.check(not ed.solid and not ed.visible, msg + ": inside, no edge")
                    ctx.check(ed.filth_sprite_set == 0, msg + ": inside, no filth")
                    continue
                if not geom.exists(shape, s):
                    continue
                o = snap["edges"][s]
                keep = (first, last)
                caps = tuple(o[2][i] if keep[i] else False for i in range(2))
                angles = tuple(o[3][i] if keep[i] else 0 for i in range(2))
                fcaps = tuple(o[6][i] if keep[i] else False for i in range(2))
                fangles = tuple(o[7][i] if keep[i] else 0 for i in range(2))
                L.check_edge(ctx, ed, (o[0], o[1], caps, angles, o[4], o[5], fcaps, fangles), msg)
    # the original tile is untouched
    L.check_tile(ctx, t, snap, "original")
