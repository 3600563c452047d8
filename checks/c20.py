"""C20: transforming a tile moves its outline and its edges together."""

from checks import geom, levels as L
from dustmaker.tile import TileShape
from dustmaker.transform import TxMatrix

BOUNDS = {
    "quick": "all 21 shapes, all 8 axis-aligned transformations (symbolic index), scale 1..3, arbitrary offsets, all edge and sprite "
    "attributes arbitrary (angles -127..127); the inverse transformation applied afterwards; "
    "every pair of transformations in sequence",
    "thorough": "as quick",
}
OUTSIDE = "edge data stored on sides the shape does not have; angle -128, which cannot be negated"


def cases(tier):
    out = [{"k": "one", "s": s} for s in range(21)]
    out += [{"k": "inv", "s": s} for s in range(21)]
    out += [{"k": "two", "s": s} for s in range(21)]
    return out


def matrix(lin, s, ox, oy):
    a, b, c, d = lin
    return TxMatrix(((a * s, b * s, ox), (c * s, d * s, oy), (0, 0, 1)))


def moved(ctx, snap, lin):
    """Expected snapshot (edges by side; None where nothing is claimed)."""
    shape = int(snap["shape"])
    new = geom.moved_shape(shape, lin)
    edges = [None] * 4
    for side in range(4):
        if not geom.exists(shape, side) or snap["edges"][side] is None:
            continue
        to = geom.moved_side(shape, lin, side)
        e = snap["edges"][side]
        if geom.flipped(lin):
            e = (e[0], e[1], (e[2][1], e[2][0]), (-e[3][1], -e[3][0]), e[4], e[5], (e[6][1], e[6][0]),
                 (-e[7][1], -e[7][0]))
        edges[to] = e
    r = dict(snap)
    r["shape"] = new
    r["edges"] = edges
    return r


def check(ctx, t, want, msg):
    for f in ("shape", "tile_flags", "sprite_set", "sprite_tile", "sprite_palette"):
        ctx.check(getattr(t, f) == want[f], "%s: %s" % (msg, f))
    ctx.check(len(t.edge_data) == 4, msg + ": four edges")
    for i in range(4):
        if want["edges"][i] is not None:
            L.check_edge(ctx, t.edge_data[i], want["edges"][i], "%s: %s edge" % (msg, L.SIDES[i]))


def run(ctx, case):
    t = L.tile(ctx, "t", shape=case["s"])
    for e in t.edge_data:
        for a in e.angles + e.filth_angles:
            ctx.assume(a != -128)
    snap = L.snap_tile(t)
    i = ctx.concrete(ctx.int("i", 0, 7))
    s = ctx.concrete(ctx.int("s", 1, 3))
    lin = geom.LINEAR[i]
    t.transform(matrix(lin, s, ctx.s("ox", 16), ctx.flt("oy", -9999, 9999, 4)))
    want = moved(ctx, snap, lin)
    check(ctx, t, want, "transformed")
    if case["k"] == "inv":
        inv = (lin[0], lin[2], lin[1], lin[3])
        t.transform(matrix(inv, s, ctx.s("ox2", 16), 0))
        check(ctx, t, {**snap, "edges": [e if geom.exists(case["s"], j) else None for j, e in enumerate(snap["edges"])]},
              "transformed back")
    if case["k"] == "two":
        j = ctx.concrete(ctx.int("j", 0, 7))
        t.transform(matrix(geom.LINEAR[j], 1, ctx.s("ox2", 16), 0))
        check(ctx, t, moved(ctx, want, geom.LINEAR[j]), "transformed twice")
