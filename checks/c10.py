"""C10: tiles survive writing and reading a level."""

from checks import levels as L
from dustmaker.level import Level

BOUNDS = {
    "quick": "1 tile with every attribute arbitrary (all shapes, flags, sprites, edge and filth data) on any layer "
    "0..20 at any position in [-2^23, 2^23); 2 and 3 tiles at arbitrary positions sharing a segment, a region or "
    "nothing, on the same or different layers; one completely filled segment (256 tiles with filth), one region with all "
    "256 segments in use, one segment with all 21 layers in use",
    "thorough": "as quick, with 4 tiles and every pairing of segment/region/layer relations",
}
OUTSIDE = "more tiles than stated; layers above 20 are never written by the format; zlib replaced by an identity codec"
LIM = 1 << 23


def cases(tier):
    out = [{"k": "one", "layer": l} for l in (19, 0)]
    out.append({"k": "anylayer"})
    rels = ["seg", "reg", "far"]
    for r in rels:
        for same in (True, False):
            out.append({"k": "two", "rel": r, "same": same})
    out.append({"k": "any2"})
    out.append({"k": "three"})
    out.append({"k": "backdrop"})
    out.append({"k": "dense"})
    out.append({"k": "segments"})
    out.append({"k": "layers"})
    out.append({"k": "regions"})
    if tier != "quick":
        out.append({"k": "four"})
    return out


def expect(ctx, lev, wants, where="tiles"):
    got = lev.tiles if where == "tiles" else lev.backdrop.tiles
    ctx.check(len(got) == len(wants), "number of " + where)
    for (key, want, layer19) in wants:
        t = got.get(key)
        ctx.check(t is not None, "tile lost from its position")
        if t is None:
            continue
        L.check_tile(ctx, t, want, "tile", filth_too=False)
        if layer19 is None:
            continue
        filthy = False
        for i in range(4):
            filthy = ctx_or(filthy, want["edges"][i][4] != 0)
        for i in range(4):
            e = t.edge_data[i]
            w = want["edges"][i]
            side = L.SIDES[i]
            # filth data is kept whenever the tile has filth
            ctx.check(e.filth_sprite_set == w[4], side + " filth sprite set")
            ctx.check((not filthy) or e.filth_spike == w[5], side + " filth spike flag")
            ctx.check((not filthy) or (e.filth_caps[0] == w[6][0] and e.filth_caps[1] == w[6][1]), side + " filth caps")
            ctx.check((not filthy) or (e.filth_angles[0] == w[7][0] and e.filth_angles[1] == w[7][1]),
                      side + " filth angles")


def ctx_or(a, b):
    return a or b


def run(ctx, case):
    k = case["k"]
    lev = Level()
    wants = []
    if k in ("one", "anylayer"):
        layer = case["layer"] if k == "one" else ctx.int("layer", 0, 20)
        x, y = ctx.int("x", -LIM, LIM - 1), ctx.int("y", -LIM, LIM - 1)
        t = L.tile(ctx, "t", full=k == "one" and layer == 19)
        lev.tiles[(layer, x, y)] = t
        wants.append(((layer, x, y), L.snap_tile(t), True if k == "one" and layer == 19 else None))
    elif k == "two":
        x0, y0 = ctx.int("x", -LIM, LIM - 1), ctx.int("y", -LIM, LIM - 1)
        x1, y1 = ctx.int("x2", -LIM, LIM - 1), ctx.int("y2", -LIM, LIM - 1)
        rel = case["rel"]
        if rel == "seg":
            ctx.assume(x0 // 16 == x1 // 16 and y0 // 16 == y1 // 16)
        elif rel == "reg":
            ctx.assume(x0 // 256 == x1 // 256 and y0 // 256 == y1 // 256)
            ctx.assume(x0 // 16 != x1 // 16 or y0 // 16 != y1 // 16)
        else:
            ctx.assume(x0 // 256 != x1 // 256 or y0 // 256 != y1 // 256)
        l0 = 19
        l1 = 19 if case["same"] else ctx.int("l1", 17, 20)
        if case["same"]:
            ctx.assume(x0 != x1 or y0 != y1)
        else:
            ctx.assume(l1 != 19)
        t0 = L.tile(ctx, "t0", shape=0)
        t1 = L.tile(ctx, "t1", shape=5, full=case["same"])
        lev.tiles[(l0, x0, y0)] = t0
        lev.tiles[(l1, x1, y1)] = t1
        wants.append(((l0, x0, y0), L.snap_tile(t0), True))
        wants.append(((l1, x1, y1), L.snap_tile(t1), True if case["same"] else None))
    elif k in ("dense", "segments", "layers", "regions"):
        ox, oy = -768, -1024
        n = {"dense": 256, "segments": 256, "layers": 21, "regions": 40}[k]
        if k == "layers":
            ox, oy = 256 * ctx.s("rx", 15), 256 * ctx.s("ry", 15)
        for i in range(n):
            t = L.tile(ctx, "t%d" % i, shape=i % 21) if i in (0, 100, n - 1) else L.Tile(L.TileShape(i % 21))
            t.sprite_palette = i % 16
            if k == "dense":
                key = (19, ox + i % 16, oy + i // 16)
                t.edge_data[i % 4].filth_sprite_set = L.TileSpriteSet(1 + i % 6)
            elif k == "segments":
                key = (7, ox + (i % 16) * 16, oy + (i // 16) * 16)
            elif k == "layers":
                key = (i, ox + 5, oy + 6)
            else:
                key = (7, ox + i * 256, oy + i * 16)
            lev.tiles[key] = t
            wants.append((key, L.snap_tile(t), True if k == "dense" else None))
    elif k in ("any2", "three", "four"):
        n = {"any2": 2, "three": 3, "four": 4}[k]
        keys = []
        for i in range(n):
            r = LIM if k == "any2" else 300
            x, y = ctx.int("x%d" % i, -r, r - 1), ctx.int("y%d" % i, -r, r - 1)
            if k != "any2":
                ctx.assume(y // 256 == 0)
                ctx.assume(y // 16 == 3)
            for o in keys:
                ctx.assume(x != o[1] or y != o[2])
            t = L.tile(ctx, "t%d" % i, shape=i, full=False)
            keys.append((5, x, y))
            lev.tiles[(5, x, y)] = t
            wants.append(((5, x, y), L.snap_tile(t), None))
    else:
        bl = 1 << 19
        x, y = ctx.int("x", -bl, bl - 1), ctx.int("y", -bl, bl - 1)
        layer = ctx.int("layer", 0, 20)
        t = L.tile(ctx, "t", full=False)
        lev.backdrop.tiles[(layer, x, y)] = t
        back = [((layer, x, y), L.snap_tile(t), None)]
        got = L.round_trip(lev)
        ctx.check(len(got.tiles) == 0, "foreground tiles appeared")
        expect(ctx, got, back, "backdrop")
        return
    got = L.round_trip(lev)
    ctx.check(len(got.backdrop.tiles) == 0, "backdrop tiles appeared")
    expect(ctx, got, wants)
