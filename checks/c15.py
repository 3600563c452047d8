"""C15: written levels are self-consistent and laid out as the game expects."""

from checks import levels as L
from checks.c13 import MAPS
from checks.reflevel import check_level
from checks.vars import build_map
from dustmaker.entity import Entity
from dustmaker.level import Level

BOUNDS = {
    "quick": "whole level files compared with an independent encoder: variable maps at all 8 directory alignments, thumbnails of "
    "0..3 bytes; one tile with every attribute arbitrary, one prop, one entity (plain or extended name) with every "
    "attribute arbitrary incl. arbitrary place inside a segment; 2..4 regions in every sign combination of "
    "coordinates; two segments per region; backdrop tiles and props",
    "thorough": "as quick",
}
OUTSIDE = "order of segments inside a region beyond two, compression itself (zlib modelled as an invertible codec)"
OPTS = {"quick": {"chunk": 40}, "thorough": {"chunk": 40}}
QUADS = [(0, 0), (-1, 0), (0, -1), (-1, -1)]


def cases(tier):
    out = []
    ms = range(12)
    for m in ms:
        out.append({"k": "empty", "m": m, "ss": m % 4})
    for m in range(12):
        for what in ("tile", "prop", "ent", "zent", "btile", "bprop"):
            for q in range(4):
                out.append({"k": "one", "m": m, "what": what, "q": q})
    for m in range(8):
        out.append({"k": "regions", "m": m, "rs": [[0, 1], [-1, 0], [3, -2]]})
    for rs in ([[0, 0], [-1, 0]], [[0, 0], [0, -1]], [[-1, -1], [-2, 5], [4, 4]], [[1, 0], [0, 1], [-1, 1], [1, -1]], [[5, 5]]):
        out.append({"k": "regions", "m": 1, "rs": rs})
    out.append({"k": "mix"})
    out.append({"k": "segs"})
    return out


def u(v):
    return v & 0xFFFF


def run(ctx, case):
    k = case["k"]
    lev = Level()
    lev.variables, refs = build_map(ctx, MAPS[case.get("m", 2)], "v")
    lev.sshot = ctx.bytes("ss", case.get("ss", 1))
    want = {"refs": refs, "sshot": lev.sshot, "regions": [], "next_id": None}
    if k == "one":
        rx, ry = QUADS[case["q"]]
        what = case["what"]
        sx, sy = ctx.concrete(ctx.int("sx", 0, 1)) * 9, 4
        seg = {}
        back = None
        if what in ("tile", "btile"):
            x, y = ctx.u("x", 4), ctx.u("y", 4)
            t = L.tile(ctx, "t", shape=None, full=False)
            if what == "tile":
                t.edge_data[3].filth_sprite_set = ctx.int("fs", 1, 7)
                t.edge_data[3].filth_spike = ctx.bool("fk")
                t.edge_data[0].filth_caps = (ctx.bool("fc"), ctx.bool("fd"))
                t.edge_data[2].filth_angles = (ctx.s("fa", 8), ctx.s("fb", 8))
                t.edge_data[1].filth_caps = (ctx.bool("fe"), ctx.bool("ff"))
                lev.tiles[(19, rx * 256 + sx * 16 + x, ry * 256 + sy * 16 + y)] = t
                snap = L.snap_tile(t)
                seg = {"tiles": [(19, [(x, y, snap)])], "dust": [(x, y, snap)]}
            else:
                lev.backdrop.tiles[(9, rx * 16 + x, ry * 16 + y)] = t
                back = {"tiles": [(9, [(x, y, L.snap_tile(t))])]}
        elif what in ("prop", "bprop"):
            p = L.prop(ctx, "p")
            snap = L.snap_prop(p)
            px = ctx.int("x", 1, 767)
            py = ctx.int("y", 1, 767)
            x = rx * 12288 + sx * 768 + px
            y = ry * 12288 + sy * 768 + py
            if rx < 0:
                x = x - 48
            if ry < 0:
                y = y - 48
            idn = ctx.u("id", 31)
            layer = ctx.u("layer", 8)
            rec = (idn, layer, x, y, 32, snap)
            (lev if what == "prop" else lev.backdrop).add_prop(layer, x / 1, y / 1, p, idn)
            want["next_id"] = idn + 1
            if what == "prop":
                seg = {"props": [rec]}
            else:
                back = {"props": [rec]}
        else:
            name = "torch_x" if what == "ent" else ctx.choice("nm", ["z_abc", "entity"])
            vals, erefs = build_map(ctx, MAPS[8] if what == "ent" else [], "ev")
            e = L.entity(ctx, "e", vals, Entity, name)
            snap = L.snap_entity(e)
            nx = (rx * 12288 + sx * 768) * 128 + ctx.int("x", 1, 768 * 128 - 1)
            ny = (ry * 12288 + sy * 768) * 128 + ctx.int("y", 1, 768 * 128 - 1)
            if rx < 0:
                nx = nx - 48 * 128
            if ry < 0:
                ny = ny - 48 * 128
            idn = ctx.u("id", 31)
            lev.add_entity(nx / 128, ny / 128, e, idn)
            want["next_id"] = idn + 1
            seg = {"ents": [(idn, name, nx, ny, snap, erefs)]}
        want["regions"] = [(rx, ry, [(sx, sy, seg)] if seg else [], back)]
    elif k == "regions":
        todo = []
        for i, (rx, ry) in enumerate(case["rs"]):
            t = L.tile(ctx, "t%d" % i, shape=2 + i, full=False)
            lev.tiles[(4, rx * 256 + 18, ry * 256 + 250)] = t
            b = None
            if i == 1:
                bt = L.tile(ctx, "bt", shape=7, full=False)
                lev.backdrop.tiles[(2, rx * 16 + 15, ry * 16 + 8)] = bt
                b = {"tiles": [(2, [(15, 8, L.snap_tile(bt))])]}
            todo.append((rx, ry, [(1, 15, {"tiles": [(4, [(2, 10, L.snap_tile(t))])]})], b))
        # the game orders regions by their coordinates taken as unsigned 16 bit numbers
        want["regions"] = sorted(todo, key=lambda r: (u(r[0]), u(r[1])))
    elif k == "mix":
        t0 = L.tile(ctx, "t0", shape=1, full=False)
        t1 = L.tile(ctx, "t1", shape=18, full=False)
        t2 = L.tile(ctx, "t2", shape=0, full=False)
        lev.tiles[(19, 5, 3)] = t0
        lev.tiles[(19, 2, 4)] = t1
        lev.tiles[(6, 9, 9)] = t2
        p = L.prop(ctx, "p")
        lev.add_prop(3, 100.0, 20.0, p, 1000)
        es = []
        for i, name in enumerate(("z_a", "plain", "entity")):
            e = L.entity(ctx, "e%d" % i, None, Entity, name)
            lev.add_entity(10.0 * i, 5.5, e, 2000 - i)
            es.append((2000 - i, name, 1280 * i, 704, L.snap_entity(e), []))
        want["next_id"] = 2001
        want["regions"] = [(0, 0, [(0, 0, {
            "tiles": [(6, [(9, 9, L.snap_tile(t2))]), (19, [(5, 3, L.snap_tile(t0)), (2, 4, L.snap_tile(t1))])],
            "props": [(1000, 3, 100, 20, 32, L.snap_prop(p))], "ents": es})], None)]
    elif k == "segs":
        t0 = L.tile(ctx, "t0", shape=1, full=False)
        t1 = L.tile(ctx, "t1", shape=18, full=False)
        lev.tiles[(3, -1, -1)] = t0
        lev.tiles[(3, -256, -256)] = t1
        want["regions"] = [(-1, -1, [(0, 0, {"tiles": [(3, [(0, 0, L.snap_tile(t1))])]}),
                                     (15, 15, {"tiles": [(3, [(15, 15, L.snap_tile(t0))])]})], None)]
    check_level(ctx, L.level_bytes(lev), want)
