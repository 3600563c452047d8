"""C22: transforming a level is one rigid motion of everything in it."""

from checks import geom, levels as L
from checks.c20 import moved
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile
from dustmaker.transform import TxMatrix
from dustmaker.variable import VariableInt

BOUNDS = {
    "quick": "1..3 tiles at arbitrary 20 bit cells and layers, 1..2 props and entities at arbitrary 16 bit positions in quarter pixels, "
    "arbitrary start positions, rotations, flips; all 8 axis-aligned maps (symbolic index), offsets that are arbitrary multiples of 48 "
    "(and arbitrary 9 bit integers, where tiles snap to the nearest cell and pairs of tiles keep their relative place); backdrop content under maps without offset; sequences of "
    "two maps; rotate(-9..9); upscale factors 1..4 (every shape) with and without a map, factors 5 and 8 for the rest of the level",
    "thorough": "as quick with factors up to 8 and backdrop tiles of every shape",
}
OUTSIDE = "maps that are not axis-aligned; the offset applied to backdrops (parallax makes it a matter of taste); which of " \
    "flip_x/flip_y records a mirror image (the format's meaning of the two flags is undocumented)"


def cases(tier):
    out = []
    for n in (1, 2, 3):
        out.append({"k": "tiles", "n": n, "api": 0})
    for api in ("h", "v", "r", "t"):
        out.append({"k": "api", "api": api})
    out.append({"k": "snap"})
    out.append({"k": "snap2", "f": 0})
    for f in (2, 3) if tier == "quick" else (2, 3, 4):
        out.append({"k": "snap2", "f": f})
    out.append({"k": "props", "n": 1})
    out.append({"k": "props", "n": 2})
    out.append({"k": "starts"})
    out.append({"k": "back"})
    out.append({"k": "group"})
    out.append({"k": "inverse"})
    for f in (1, 2, 3, 5, 8):
        out.append({"k": "upall", "f": f})
    for s in range(21):
        for f in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)):
            out.append({"k": "up", "s": s, "f": f})
            if tier != "quick" or s in (0, 4, 17):
                out.append({"k": "upback", "s": s, "f": f})
    return out


def matrix(lin, ox, oy):
    a, b, c, d = lin
    return TxMatrix(((a, b, ox), (c, d, oy), (0, 0, 1)))


def cell(lin, kx, ky, x, y):
    """Cell the tile at x,y ends up in (centre mapped), offsets in cells."""
    a, b, c, d = lin
    cx, cy = 2 * x + 1, 2 * y + 1
    return (a * cx + b * cy - 1) // 2 + kx, (c * cx + d * cy - 1) // 2 + ky


def point(lin, ox, oy, x, y):
    a, b, c, d = lin
    return a * x + b * y + ox, c * x + d * y + oy


def small_tile(ctx, name, shape=0):
    t = L.tile(ctx, name, shape=shape, full=False)
    for e in t.edge_data:
        for a in e.angles:
            ctx.assume(a != -128)
    return t


def check_moved_tile(ctx, t, want, msg):
    ctx.check(t.shape == want["shape"], msg + ": shape")
    for i in range(4):
        if want["edges"][i] is not None:
            L.check_edge(ctx, t.edge_data[i], want["edges"][i], "%s: %s edge" % (msg, L.SIDES[i]))
    for f in ("tile_flags", "sprite_set", "sprite_tile", "sprite_palette"):
        ctx.check(getattr(t, f) == want[f], "%s: %s" % (msg, f))


def put_tiles(ctx, lev, n, shape=17):
    out = []
    for i in range(n):
        layer = ctx.int("l%d" % i, 0, 20)
        x, y = ctx.s("x%d" % i, 20), ctx.s("y%d" % i, 20)
        for o in out:
            ctx.assume(o[0] != layer or o[1] != x or o[2] != y)
        t = small_tile(ctx, "t%d" % i, shape if i == 0 else 0)
        lev.tiles[(layer, x, y)] = t
        out.append((layer, x, y, L.snap_tile(t)))
    return out


def check_tiles(ctx, lev, tiles, lin, kx, ky):
    ctx.check(len(lev.tiles) == len(tiles), "number of tiles")
    for layer, x, y, snap in tiles:
        nx, ny = cell(lin, kx, ky, x, y)
        t = lev.tiles.get((layer, nx, ny))
        ctx.check(t is not None, "tile in the cell its centre moves to")
        if t is not None:
            check_moved_tile(ctx, t, moved(ctx, snap, lin), "tile")


def put_things(ctx, lev, n):
    out = []
    for i in range(n):
        x, y = ctx.flt("px%d" % i, -60000, 60000, 4), ctx.flt("py%d" % i, -60000, 60000, 4)
        p = L.prop(ctx, "p%d" % i)
        layer = ctx.int("pl%d" % i, 0, 20)
        u, v = ctx.flt("ex%d" % i, -60000, 60000, 4), ctx.flt("ey%d" % i, -60000, 60000, 4)
        e = L.entity(ctx, "e%d" % i, None, Entity, "thing%d" % i)
        lev.add_prop(layer, x, y, p, 1000 + i)
        lev.add_entity(u, v, e, 2000 + i)
        out.append((layer, x, y, L.snap_prop(p), u, v, L.snap_entity(e)))
    return out


def check_pose(ctx, got, snap, lin, msg):
    """Rotations add up; a mirror image toggles exactly one flip and reverses the turning direction."""
    i = geom.LINEAR.index(lin)
    flips = (got.flip_x != snap["flip_x"]), (got.flip_y != snap["flip_y"])
    if i < 4:
        ctx.check(got.rotation == (snap["rotation"] + 0x4000 * i) % 0x10000, msg + ": rotation")
        ctx.check(not flips[0] and not flips[1], msg + ": flips")
    else:
        ctx.check(flips[0] != flips[1], msg + ": mirrored")
        ctx.check((got.rotation + snap["rotation"]) % 0x4000 == 0, msg + ": turning direction reversed")


def check_things(ctx, lev, things, lin, ox, oy):
    ctx.check(len(lev.props) == len(things) and len(lev.entities) == len(things), "number of props and entities")
    for i, (layer, x, y, ps, u, v, es) in enumerate(things):
        r = lev.props.get(1000 + i)
        ctx.check(r is not None, "prop id")
        if r is not None:
            wx, wy = point(lin, ox, oy, x, y)
            ctx.check(r[0] == layer, "prop layer")
            ctx.check(r[1] == wx, "prop x")
            ctx.check(r[2] == wy, "prop y")
            L.check_prop(ctx, r[3], ps, "prop", ("rotation", "flip_x", "flip_y"))
            check_pose(ctx, r[3], ps, lin, "prop")
        r = lev.entities.get(2000 + i)
        ctx.check(r is not None, "entity id")
        if r is not None:
            wx, wy = point(lin, ox, oy, u, v)
            ctx.check(r[0] == wx, "entity x")
            ctx.check(r[1] == wy, "entity y")
            L.check_entity(ctx, r[2], es, "entity", ("rotation", "flip_x", "flip_y"))
            check_pose(ctx, r[2], es, lin, "entity")


def put_starts(ctx, lev):
    out = []
    for p in range(1, 5):
        x, y = ctx.s("sx%d" % p, 16), ctx.s("sy%d" % p, 16)
        s = lev.start_position(p)
        s.x, s.y = x, y
        out.append((x, y))
    return out


def check_starts(ctx, lev, starts, lin, ox, oy):
    for p, (x, y) in enumerate(starts):
        wx, wy = point(lin, ox, oy, x, y)
        s = lev.start_position(p + 1)
        ctx.check(s.x == wx, "start position x")
        ctx.check(s.y == wy, "start position y")


def pick(ctx, name="i"):
    return geom.LINEAR[ctx.concrete(ctx.int(name, 0, 7))]


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "tiles":
        lin = pick(ctx)
        kx, ky = ctx.s("kx", 16), ctx.s("ky", 16)
        tiles = put_tiles(ctx, lev, case["n"])
        lev.transform(matrix(lin, 48 * kx, 48 * ky))
        check_tiles(ctx, lev, tiles, lin, kx, ky)
        return
    if k == "api":
        tiles, things, starts = put_tiles(ctx, lev, 1), put_things(ctx, lev, 1), put_starts(ctx, lev)
        kx = ky = 0
        if case["api"] == "h":
            lin = geom.LINEAR[4]
            lev.flip_horizontal()
        elif case["api"] == "v":
            lin = (1, 0, 0, -1)
            lev.flip_vertical()
        elif case["api"] == "r":
            n = ctx.concrete(ctx.int("n", -9, 9))
            lin = geom.LINEAR[n % 4]
            lev.rotate(n)
            if n == 1:
                lev.rotate(-1)
                lev.rotate()
        else:
            lin = geom.LINEAR[0]
            kx, ky = ctx.s("kx", 16), ctx.s("ky", 16)
            lev.translate(48 * kx, 48 * ky)
        check_tiles(ctx, lev, tiles, lin, kx, ky)
        check_things(ctx, lev, things, lin, 48 * kx, 48 * ky)
        check_starts(ctx, lev, starts, lin, 48 * kx, 48 * ky)
        return
    if k == "snap":
        lin = pick(ctx)
        ox, oy = ctx.s("ox", 9), ctx.s("oy", 9)
        x, y = ctx.s("x", 12), ctx.s("y", 12)
        t = small_tile(ctx, "t")
        lev.tiles[(5, x, y)] = t
        lev.transform(matrix(lin, ox, oy))
        ctx.check(len(lev.tiles) == 1, "one tile")
        for layer, nx, ny in lev.tiles:
            wx, wy = point(lin, ox, oy, 48 * x + 24, 48 * y + 24)
            ctx.check(layer == 5, "layer")
            dx, dy = 48 * nx + 24 - wx, 48 * ny + 24 - wy
            ctx.check(-24 <= dx and dx <= 24, "nearest cell (x)")
            ctx.check(-24 <= dy and dy <= 24, "nearest cell (y)")
        return
    if k == "snap2":
        # two tiles keep their relative place (and so stay two tiles) under any offset
        lin = pick(ctx)
        ox, oy = ctx.s("ox", 9), ctx.s("oy", 9)
        f = case["f"]
        cells = [(ctx.s("x%d" % i, 10), ctx.s("y%d" % i, 10)) for i in range(2)]
        ctx.assume(cells[0][0] != cells[1][0] or cells[0][1] != cells[1][1])
        for i, (x, y) in enumerate(cells):
            t = Tile()
            t.sprite_tile = 7 + i
            lev.tiles[(5, x, y)] = t
        if f:
            lev.upscale(f, mat=matrix(lin, ox, oy))
        else:
            lev.transform(matrix(lin, ox, oy))
        f = f or 1
        ctx.check(len(lev.tiles) == 2 * f * f, "number of tiles")
        now = [[], []]
        for (layer, nx, ny), t in lev.tiles.items():
            now[0 if t.sprite_tile == 7 else 1].append((nx, ny))
        ctx.check(len(now[0]) == f * f and len(now[1]) == f * f, "each tile's squares")
        if len(now[0]) != f * f or len(now[1]) != f * f:
            return
        wx, wy = point(lin, 0, 0, f * (cells[1][0] - cells[0][0]), f * (cells[1][1] - cells[0][1]))
        gx = min([c[0] for c in now[1]]) - min([c[0] for c in now[0]])
        gy = min([c[1] for c in now[1]]) - min([c[1] for c in now[0]])
        ctx.check(gx == wx and gy == wy, "relative place of two tiles")
        return
    if k == "props":
        lin = pick(ctx)
        ox, oy = ctx.flt("ox", -60000, 60000, 4), ctx.s("oy", 16)
        things = put_things(ctx, lev, case["n"])
        lev.transform(matrix(lin, ox, oy))
        check_things(ctx, lev, things, lin, ox, oy)
        return
    if k == "starts":
        lin = pick(ctx)
        ox, oy = ctx.s("ox", 16), ctx.s("oy", 16)
        other = ctx.s("v", 16)
        lev.variables["other"] = VariableInt(other)
        starts = put_starts(ctx, lev)
        lev.transform(matrix(lin, ox, oy))
        check_starts(ctx, lev, starts, lin, ox, oy)
        ctx.check(lev.variables["other"].value == other, "other variables")
        return
    if k == "back":
        lin = pick(ctx)
        tiles, things = put_tiles(ctx, lev.backdrop, 1), None
        x, y = ctx.flt("bx", -60000, 60000, 4), ctx.flt("by", -60000, 60000, 4)
        p = L.prop(ctx, "bp")
        ps = L.snap_prop(p)
        lev.backdrop.add_prop(3, x, y, p, 77)
        lev.transform(matrix(lin, 0, 0))
        check_tiles(ctx, lev.backdrop, tiles, lin, 0, 0)
        r = lev.backdrop.props.get(77)
        ctx.check(r is not None and len(lev.backdrop.props) == 1, "backdrop prop")
        if r is not None:
            wx, wy = point(lin, 0, 0, x, y)
            ctx.check(r[0] == 3 and r[1] == wx and r[2] == wy, "backdrop prop place")
            check_pose(ctx, r[3], ps, lin, "backdrop prop")
        ctx.check(not lev.tiles and not lev.props, "nothing moves to the foreground")
        return
    if k in ("group", "inverse"):
        # transforming twice equals transforming by the product; poses included
        l1, l2 = pick(ctx), pick(ctx, "j")
        k1, k2 = ctx.s("k1", 8), ctx.s("k2", 8)
        if k == "inverse":
            ctx.assume(geom.LINEAR.index(l2) == 0)
            l2 = (l1[0], l1[2], l1[1], l1[3])
        a = matrix(l1, 48 * k1, 48 * k2)
        ia, ib = point(l2, 0, 0, -48 * k1, -48 * k2)
        b = matrix(l2, ia, ib) if k == "inverse" else matrix(l2, 48 * k2, -48 * k1)
        rot, fx, fy = ctx.u("rot", 16), ctx.bool("fx"), ctx.bool("fy")
        x, y = ctx.flt("x", -60000, 60000, 4), ctx.flt("y", -60000, 60000, 4)
        twin = Level()
        for lv in (lev, twin):
            lv.add_entity(x, y, Entity(None, rot, 3, fx, fy, True), 500)
            lv.add_prop(4, x, y, mkprop(rot, fx, fy), 600)
        lev.transform(a)
        lev.transform(b)
        if k != "inverse":
            twin.transform(b * a)
        for what, i in (("entities", 500), ("props", 600)):
            g, w = getattr(lev, what)[i], getattr(twin, what)[i]
            off = 1 if what == "props" else 0
            ctx.check(g[off] == w[off] and g[off + 1] == w[off + 1], what + ": position")
            go, wo = g[-1], w[-1]
            ctx.check(go.rotation == wo.rotation, what + ": rotation")
            ctx.check(go.flip_x == wo.flip_x and go.flip_y == wo.flip_y, what + ": flips")
        return
    if k == "up":
        f = case["f"]
        lin = pick(ctx)
        kx, ky = ctx.s("kx", 12), ctx.s("ky", 12)
        x, y = ctx.s("x", 16), ctx.s("y", 16)
        t = small_tile(ctx, "t", case["s"])
        snap = L.snap_tile(t)
        lev.tiles[(7, x, y)] = t
        u, v = ctx.flt("ex", -6000, 6000, 4), ctx.flt("ey", -6000, 6000, 4)
        lev.add_entity(u, v, Entity(), 300)
        i = geom.LINEAR.index(lin)
        if i == 0:
            lev.upscale(f)
            kx = ky = 0
        else:
            lev.upscale(f, mat=matrix(lin, 48 * kx, 48 * ky))
        wx, wy = point(lin, 48 * kx, 48 * ky, u, v)
        r = lev.entities[300]
        ctx.check(r[0] == f * wx and r[1] == f * wy, "entity position")
        check_block(ctx, lev.tiles, 7, snap, lin, kx, ky, x, y, f)
        return
    if k == "upall":
        # everything else in the level follows the enlargement
        f = case["f"]
        lin = pick(ctx)
        kx, ky = ctx.s("kx", 8), ctx.s("ky", 8)
        x, y = ctx.flt("ex", -60000, 60000, 4), ctx.flt("ey", -60000, 60000, 4)
        u, v = ctx.flt("px", -60000, 60000, 4), ctx.flt("py", -60000, 60000, 4)
        e, p, q = L.entity(ctx, "e", None, Entity, "thing"), L.prop(ctx, "p"), L.prop(ctx, "q")
        es, ps, qs = L.snap_entity(e), L.snap_prop(p), L.snap_prop(q)
        lev.add_entity(x, y, e, 300)
        lev.add_prop(5, u, v, p, 301)
        lev.backdrop.add_prop(6, v, x, q, 302)
        starts = []
        for i in range(1, 5):
            s = lev.start_position(i)
            s.x, s.y = ctx.s("sx%d" % i, 14), ctx.s("sy%d" % i, 14)
            starts.append((s.x, s.y))
        back = geom.LINEAR.index(lin) in (0, 1, 4)
        if back:
            kx = ky = 0
        if geom.LINEAR.index(lin) == 0:
            lev.upscale(f)
        else:
            lev.upscale(f, mat=matrix(lin, 48 * kx, 48 * ky))
        ctx.check(len(lev.entities) == 1 and len(lev.props) == 1 and len(lev.backdrop.props) == 1, "content count")
        wx, wy = point(lin, 48 * kx, 48 * ky, x, y)
        r = lev.entities[300]
        ctx.check(r[0] == f * wx and r[1] == f * wy, "entity position")
        L.check_entity(ctx, r[2], es, "entity", ("rotation", "flip_x", "flip_y"))
        check_pose(ctx, r[2], es, lin, "entity")
        wx, wy = point(lin, 48 * kx, 48 * ky, u, v)
        r = lev.props[301]
        ctx.check(r[0] == 5 and r[1] == f * wx and r[2] == f * wy, "prop position")
        L.check_prop(ctx, r[3], ps, "prop", ("rotation", "flip_x", "flip_y", "scale"))
        check_pose(ctx, r[3], ps, lin, "prop")
        r = lev.backdrop.props[302]
        if back:
            wx, wy = point(lin, 0, 0, v, x)
            ctx.check(r[0] == 6 and r[1] == f * wx and r[2] == f * wy, "backdrop prop position")
        L.check_prop(ctx, r[3], qs, "backdrop prop", ("rotation", "flip_x", "flip_y", "scale"))
        check_pose(ctx, r[3], qs, lin, "backdrop prop")
        for i, (sx, sy) in enumerate(starts):
            wx, wy = point(lin, 48 * kx, 48 * ky, sx, sy)
            s = lev.start_position(i + 1)
            ctx.check(s.x == f * wx and s.y == f * wy, "start position")
        return
    if k == "upback":
        f = case["f"]
        lin = pick(ctx)
        x, y = ctx.s("x", 16), ctx.s("y", 16)
        t = small_tile(ctx, "t", case["s"])
        snap = L.snap_tile(t)
        lev.backdrop.tiles[(7, x, y)] = t
        lev.upscale(f, mat=matrix(lin, 0, 0))
        check_block(ctx, lev.backdrop.tiles, 7, snap, lin, 0, 0, x, y, f)
        ctx.check(not lev.tiles, "nothing moves to the foreground")
        return


def check_block(ctx, tiles, layer, snap, lin, kx, ky, x, y, f):
    """The one tile became the f x f block it covers when enlarged."""
    from checks.c21 import expected_shape

    want = moved(ctx, snap, lin)
    nx, ny = cell(lin, kx, ky, x, y)
    n = 0
    for dx in range(f):
        for dy in range(f):
            s = expected_shape(want["shape"], f, dx, dy)
            g = tiles.get((layer, f * nx + dx, f * ny + dy))
            ctx.check((g is None) == (s is None), "enlarged block cell filled")
            if g is not None and s is not None:
                n += 1
                ctx.check(g.shape == s, "enlarged block cell shape")
                ctx.check(g.sprite_tile == snap["sprite_tile"] and g.sprite_set == snap["sprite_set"], "sprite")
    ctx.check(len(tiles) == n, "number of tiles")


def mkprop(rot, fx, fy):
    from dustmaker.prop import Prop

    return Prop(1, rot, fx, fy, 1.0, 2, 3, 4, 5)
