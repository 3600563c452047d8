"""C24: calculated edge visibility follows the documented rules."""

from checks import geom, levels as L
from dustmaker.level import Level
from dustmaker.tile import TileShape, TileSpriteSet

BOUNDS = {
    "quick": "every ordered pair of the 21 shapes next to each other in each of the 4 directions, arbitrary sprites and previous edge data, an "
    "arbitrary third tile anywhere around (any layer); tiles alone; a tile with all 4 neighbours; with no callback and with an arbitrary callback",
    "thorough": "as quick with an arbitrary fourth tile and all 4 neighbours of arbitrary shape",
}
OUTSIDE = "more tiles than stated (the rule is local to a tile and its four neighbours)"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}
DIRS = ((0, -1), (0, 1), (-1, 0), (1, 0))


def cases(tier):
    out = []
    for s in range(21):
        out.append({"k": "alone", "s": s})
        for d in range(4):
            out.append({"k": "pair", "s": s, "d": d, "cb": (s + d) % 2 == 0})
    for s in (0, 1, 4, 11, 17, 18):
        out.append({"k": "four", "s": s})
    for s in (0, 3, 17):
        out.append({"k": "third", "s": s})
    return out


def tile(ctx, name, shape, old=True):
    from dustmaker.tile import Tile

    t = Tile(TileShape(shape), sprite_set=ctx.enum(name + ".set", TileSpriteSet), sprite_tile=ctx.u(name + ".tile", 8),
             sprite_palette=ctx.u(name + ".pal", 4))
    if old:
        t.edge_data = [L.edge(ctx, "%s.e%d" % (name, i)) for i in range(4)]
    return t


def flush(shape, side):
    a, b = geom.ends(shape, side)
    return geom.exists(shape, side) and (a[0] == b[0] or a[1] == b[1])


def run(ctx, case):
    k = case["k"]
    lev = Level()
    tiles = {}
    s = case["s"]

    def put(key, t):
        lev.tiles[key] = t
        tiles[key] = (t, L.snap_tile(t))

    base = ctx.s("bx", 10), ctx.s("by", 10)
    layer = ctx.int("layer", 0, 20)
    x0, y0 = base if k == "alone" else (3, -4)
    lay = layer if k == "alone" else 19
    put((lay, x0, y0), tile(ctx, "t", s))
    if k == "pair":
        d = DIRS[case["d"]]
        n = ctx.concrete(ctx.int("n", 0, 20))
        put((19, x0 + d[0], y0 + d[1]), tile(ctx, "u", n, False))
    elif k == "four":
        for i, d in enumerate(DIRS):
            n = ctx.concrete(ctx.int("n%d" % i, 0, 1)) * (i + 2)
            put((19, x0 + d[0], y0 + d[1]), tile(ctx, "u%d" % i, n, False))
    elif k == "third":
        d = ctx.concrete(ctx.int("d", 0, 3))
        put((19, x0 + DIRS[d][0], y0 + DIRS[d][1]), tile(ctx, "u", 0, False))
        px, py, pl = (ctx.concrete(ctx.int("px", -1, 1)), ctx.concrete(ctx.int("py", -1, 1)), ctx.concrete(ctx.int("pl", 18, 19)))
        ctx.assume(not (pl == 19 and px == 0 and py == 0))
        ctx.assume(not (pl == 19 and px == DIRS[d][0] and py == DIRS[d][1]))
        put((pl, x0 + px, y0 + py), tile(ctx, "w", 17, False))
    asked = {}

    def callback(x, y, side, t, nt):
        key = (x, y, int(side))
        ctx.check(key not in asked, "callback asked once per edge")
        asked[key] = (t, nt, ctx.bool("cb%d" % len(asked)))
        return asked[key][2]

    use_cb = case.get("cb", k == "third")
    if use_cb:
        lev.calculate_edge_visibility(visible_callback=callback)
    else:
        lev.calculate_edge_visibility()
    ctx.check(len(lev.tiles) == len(tiles), "tiles kept")
    for (la, x, y), (t, snap) in tiles.items():
        ctx.check(t.shape == snap["shape"], "shape kept")
        shape = int(snap["shape"])
        for side in range(4):
            e = t.edge_data[side]
            msg = "%s edge of shape %d" % (L.SIDES[side], shape)
            if not geom.exists(shape, side):
                ctx.check(not e.solid and not e.visible, msg + ": does not exist")
                continue
            o = snap["edges"][side]
            nk = (la, x + DIRS[side][0], y + DIRS[side][1])
            n = tiles.get(nk)
            opp = side ^ 1
            if not flush(shape, side) or n is None or not flush(int(n[1]["shape"]), opp):
                ctx.check(e.solid and e.visible, msg + ": exposed, solid and visible")
            else:
                ns = n[1]
                same = (snap["sprite_set"] == ns["sprite_set"] and snap["sprite_tile"] == ns["sprite_tile"]
                        and snap["sprite_palette"] == ns["sprite_palette"])
                ctx.check(not e.solid, msg + ": covered, not solid")
                got = asked.get((x, y, side))
                if use_cb:
                    ctx.check((got is None) == same, msg + ": callback asked iff sprites differ")
                    if got is not None:
                        ctx.check(got[0] is t and got[1] is n[0], msg + ": callback arguments")
                        ctx.check(e.visible == got[2], msg + ": callback decides visibility")
                    else:
                        ctx.check(not e.visible, msg + ": same sprite, invisible")
                else:
                    ctx.check(e.visible == (not same and side in (1, 3)), msg + ": covered")
            # nothing else about the edge changes
            for i, f in ((2, "caps"), (3, "angles"), (4, "filth_sprite_set"), (5, "filth_spike"), (6, "filth_caps"), (7, "filth_angles")):
                g = getattr(e, f)
                if f.endswith("caps") or f.endswith("angles"):
                    ctx.check(g[0] == o[i][0] and g[1] == o[i][1], msg + ": " + f + " kept")
                else:
                    ctx.check(g == o[i], msg + ": " + f + " kept")
