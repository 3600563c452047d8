"""C16: the per-segment filth totals of a written level match its content."""

from checks import levels as L
from checks.reflevel import Cursor
from dustmaker.entity import Enemy, Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
import zlib

BOUNDS = {
    "quick": "1..5 collision-layer tiles with arbitrary sprite, solidity, visibility and filth on all four edges in one or two "
    "segments, 1 tile on an arbitrary other layer, a full segment of 256 filthy tiles, every registered entity type, 1..3 user defined ones, "
    "2..4 enemies in one or two segments",
    "thorough": "as quick with up to 6 tiles",
}
DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}
# filth per enemy in the game; other entities carry none
FILTH = {
    "enemy_bear": 9, "enemy_book": 3, "enemy_butler": 1, "enemy_chest_scrolls": 9, "enemy_chest_treasure": 9,
    "enemy_critter": 3, "enemy_flag": 5, "enemy_gargoyle_big": 5, "enemy_gargoyle_small": 3, "enemy_hawk": 3,
    "enemy_key": 1, "enemy_knight": 9, "enemy_maid": 1, "enemy_porcupine": 1, "enemy_scrolls": 1, "enemy_slime_ball": 3,
    "enemy_slime_barrel": 3, "enemy_slime_beast": 9, "enemy_spring_ball": 5, "enemy_stoneboss": 12, "enemy_stonebro": 3,
    "enemy_trash_ball": 3, "enemy_trash_beast": 9, "enemy_trash_can": 9, "enemy_trash_tire": 3, "enemy_treasure": 1,
    "enemy_tutorial_hexagon": 1, "enemy_tutorial_square": 1, "enemy_wolf": 5,
}
OTHERS = ["enemy_door", "trash_king", "slime_boss", "AI_controller", "hittable_apple", "level_end", "z_string_list",
          "fog_trigger", "dust_man", "unknown_thing", "custom_score_book", "camera_node", "check_point"]
ALL = sorted(FILTH) + OTHERS


def cases(tier):
    out = [{"k": "tiles", "n": n, "seg": s} for n in (1, 2, 3) for s in (0, 1)]
    out += [{"k": "tiles", "n": n, "seg": s} for s in (0, 1) for n in ((4, 5) if tier == "quick" else (4, 5, 6))]
    out.append({"k": "layer"})
    out.append({"k": "full"})
    for i in range(0, len(ALL), 10):
        out.append({"k": "types", "i": i, "j": i + 10})
    out += [{"k": "own", "n": n} for n in (1, 2, 3)]
    out.append({"k": "enemies", "n": 2})
    out.append({"k": "enemies", "n": 4})
    return out


def headers(ctx, data):
    """{(region x, region y, segment x, segment y): counts}, backdrop under (rx, ry, None)"""
    c = Cursor(data, 48 + 16 + 32)
    nreg = ctx.concrete(c.u(32))
    c.pos += 224
    ss = ctx.concrete(c.u(32))
    c.pos += 8 * ss
    # the harness writes no variables: 4 bit terminator
    c.pos += 4 + 32 * nreg
    c.pos = (c.pos + 7) // 8 * 8
    out = {}
    for _ in range(nreg):
        rlen = ctx.concrete(c.u(32))
        c.u(32)
        rx, ry = ctx.concrete(c.u(16)), ctx.concrete(c.u(16))
        c.u(16)
        nseg = ctx.concrete(c.u(16))
        back = ctx.concrete(c.u(8))
        s = Cursor(zlib.decompress(c.bytes(rlen - 17)))
        for i in range(nseg + back):
            at = s.pos
            size = ctx.concrete(s.u(32))
            s.u(16)
            sx, sy = ctx.concrete(s.u(8)), ctx.concrete(s.u(8))
            s.u(8)
            s.u(32)
            key = (rx, ry, sx, sy) if i < nseg else (rx, ry, None)
            out[key] = [s.u(16) for _ in range(4)]
            s.pos = at + 8 * size
    return out


def expected(tiles):
    dust, surface, block = 0, 0, 0
    for t in tiles:
        for s in DUSTBLOCK:
            block = block + (1 if t.sprite_set == s and t.sprite_tile == DUSTBLOCK[s] else 0)
        for e in t.edge_data:
            dust = dust + (1 if e.filth_sprite_set != 0 and not e.filth_spike else 0)
            surface = surface + (1 if e.solid and e.visible and not e.filth_spike else 0)
    return dust, surface, block


def mk(ctx, name):
    return L.tile(ctx, name, shape=0)


def check_counts(ctx, got, tiles, enemy, msg):
    ctx.check(got is not None, msg + ": segment present")
    if got is None:
        return
    dust, surface, block = expected(tiles)
    ctx.check(got[0] == dust, msg + ": filth edges")
    ctx.check(got[1] == enemy, msg + ": enemy filth")
    ctx.check(got[2] == surface, msg + ": surface edges")
    ctx.check(got[3] == block, msg + ": dust blocks")


def run(ctx, case):
    k = case["k"]
    lev = Level()
    lev.variables = {}
    if k == "tiles":
        first, second = [], []
        for i in range(case["n"]):
            t = mk(ctx, "t%d" % i)
            other = case["seg"] and i > 0
            lev.tiles[(19, 2 * i + (16 if other else 0), 2)] = t
            (second if other else first).append(t)
        h = headers(ctx, L.level_bytes(lev))
        check_counts(ctx, h.get((0, 0, 0, 0)), first, 0, "first segment")
        if second:
            check_counts(ctx, h.get((0, 0, 1, 0)), second, 0, "second segment")
        return
    if k == "layer":
        layer = ctx.int("layer", 0, 20)
        t = mk(ctx, "t")
        lev.tiles[(layer, 5, 5)] = t
        h = headers(ctx, L.level_bytes(lev))
        got = h.get((0, 0, 0, 0))
        dust, surface, block = expected([t])
        ctx.check(got[0] == (dust if layer == 19 else 0), "filth edges only count on the collision layer")
        ctx.check(got[2] == (surface if layer == 19 else 0), "surface edges only count on the collision layer")
        ctx.check(got[3] == (block if layer == 19 else 0), "dust blocks only count on the collision layer")
        ctx.check(got[1] == 0, "enemy filth")
        return
    if k == "full":
        ts = []
        for i in range(256):
            t = Tile(TileShape(0))
            t.sprite_set, t.sprite_tile = TileSpriteSet(1 + i % 5), (21, 13, 6, 9, 2)[i % 5] + (i % 7 == 0)
            for j, e in enumerate(t.edge_data):
                e.solid, e.visible = (i + j) % 3 != 0, (i + j) % 5 != 0
                e.filth_sprite_set = TileSpriteSet((i + j) % 7)
            lev.tiles[(19, i % 16, i // 16)] = t
            ts.append(t)
        ts[77].edge_data[2].solid = ctx.bool("a")
        h = headers(ctx, L.level_bytes(lev))
        check_counts(ctx, h.get((0, 0, 0, 0)), ts, 0, "full segment")
        return
    if k == "types":
        names = ALL[case["i"]:case["j"]]
        vals = []
        for i, n in enumerate(names):
            e = Entity._from_raw(n, {}, ctx.u("r%d" % i, 16), 18, ctx.bool("fx%d" % i), False, True)
            vals.append(FILTH.get(n, 0))
            lev.add_entity(768.0 * i + 5, 7.0, e, 500 + i)
        h = headers(ctx, L.level_bytes(lev))
        for i, v in enumerate(vals):
            check_counts(ctx, h.get((0, 0, i, 0)), [], v, "entity type " + names[i])
        return
    if k == "own":
        # enemy classes the user defines
        want = 0
        for i in range(case["n"]):
            f = ctx.int("f%d" % i, 0, 1000)

            class Own(Enemy):
                FILTH = f

            e = Own()
            e.etype = ("own_enemy", "z_own", "enemy_own")[i]
            want = want + f
            lev.add_entity(30.0 * i, 5.0, e, 700 + i)
        h = headers(ctx, L.level_bytes(lev))
        check_counts(ctx, h.get((0, 0, 0, 0)), [], want, "user defined enemies")
        return
    enemies = sorted(FILTH)
    sums = [0, 0]
    for i in range(case["n"]):
        j = ctx.concrete(ctx.int("k%d" % i, 0, 5 if case["n"] == 2 else 1)) + 6 * i
        name = enemies[j % len(enemies)]
        e = Entity._from_raw(name, {}, ctx.u("r%d" % i, 16), 18, False, False, True)
        seg = i % 2 if case["n"] == 4 else 0
        sums[seg] += FILTH[name]
        lev.add_entity(768.0 * seg + 30 * i, 5.0, e, 700 + i)
    t = mk(ctx, "t")
    lev.tiles[(19, 0, 0)] = t
    h = headers(ctx, L.level_bytes(lev))
    check_counts(ctx, h.get((0, 0, 0, 0)), [t], sums[0], "first segment")
    if case["n"] == 4:
        check_counts(ctx, h.get((0, 0, 1, 0)), [], sums[1], "second segment")
