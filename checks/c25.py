"""C25: calculated edge caps and join angles follow the documented rules."""

import math

from checks import geom, levels as L
from checks.c24 import tile
from dustmaker.level import Level
from dustmaker.tile import TileSpriteSet

BOUNDS = {
    "quick": "every shape and side with a neighbour of every shape at each corner direction, and every pair of neighbours that could both join the same "
    "corner; sprites, visibility, previous cap data and filth arbitrary; tiles on another layer",
    "thorough": "as quick with all sides of both tiles visible or not independently for a third of the shapes",
}
OUTSIDE = "edges marked visible on sides the shape does not have; more than three tiles around a corner carrying edges of the same side"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}
CORNERS = {(0, 0): ((-1, 0), (-1, -1), (0, -1)), (2, 0): ((0, -1), (1, -1), (1, 0)),
           (2, 2): ((1, 0), (1, 1), (0, 1)), (0, 2): ((0, 1), (-1, 1), (-1, 0))}


def travel(shape, side, dr):
    """Start and end of a side traversed counter-clockwise (0, towards its first corner) or clockwise (1)."""
    a, b = geom.ends(shape, side)
    return (a, b) if dr else (b, a)


def joins(shape, side, dr, d, n):
    """Half turn in degrees (clockwise positive) onto the neighbour n at offset d, None when it does not join."""
    if not geom.exists(n, side):
        return None
    a, b = travel(shape, side, dr)
    na, nb = travel(n, side, dr)
    na = (na[0] + 2 * d[0], na[1] + 2 * d[1])
    nb = (nb[0] + 2 * d[0], nb[1] + 2 * d[1])
    if b != na:
        return None
    t = math.degrees(math.atan2(nb[1] - na[1], nb[0] - na[0]) - math.atan2(b[1] - a[1], b[0] - a[0]))
    while t > 180:
        t -= 360
    while t <= -180:
        t += 360
    return t


def half(turn):
    """Half the turn rounded towards zero."""
    return int(round(turn / 2, 6))


def multi(tier):
    """Corners at which two neighbours can join with different turns."""
    out = []
    for s in range(21):
        for side in range(4):
            if not geom.exists(s, side):
                continue
            for dr in (0, 1):
                c = travel(s, side, dr)[1]
                if c not in CORNERS:
                    continue
                cand = []
                for d in CORNERS[c]:
                    for n in range(21):
                        t = joins(s, side, dr, d, n)
                        if t is not None:
                            cand.append((d, n, t))
                for i, p in enumerate(cand):
                    for q in cand[i + 1:]:
                        if p[0] != q[0] and abs(p[2] - q[2]) > 1e-6:
                            out.append([s, side, dr, list(p[0]), p[1], list(q[0]), q[1]])
    return out


def cases(tier):
    out = []
    for s in range(21):
        for side in range(4):
            if geom.exists(s, side):
                out.append({"k": "pair", "s": s, "side": side})
    ms = multi(tier)
    by = {}
    for m in ms:
        by.setdefault((m[0], m[1]), []).append(m[2:])
    for (s, side), lst in sorted(by.items()):
        out.append({"k": "multi", "s": s, "side": side, "lst": lst[(s + side) % 3::3] if tier == "quick" else lst})
    for s in range(21):
        out.append({"k": "alone", "s": s})
    if tier != "quick":
        for s in range(0, 21, 3):
            out.append({"k": "all", "s": s})
    return out


def expect(ctx, tiles, key, side, dr):
    """Expected (cap, angle, filth cap, filth angle) of one corner of a visible edge."""
    t, snap = tiles[key]
    s = int(snap["shape"])
    e = snap["edges"][side]
    c = travel(s, side, dr)[1]
    if c not in CORNERS:
        return False, 0, False, 0
    best = None
    for d in CORNERS[c]:
        n = tiles.get((key[0], key[1] + d[0], key[2] + d[1]))
        if n is None:
            continue
        ns = n[1]
        turn = joins(s, side, dr, d, int(ns["shape"]))
        if turn is None:
            continue
        if not ns["edges"][side][1]:
            continue
        if not (ns["sprite_set"] == snap["sprite_set"] and ns["sprite_tile"] == snap["sprite_tile"]
                and ns["sprite_palette"] == snap["sprite_palette"]):
            continue
        # the joiner leading most away from the tile: counter-clockwise when going clockwise and vice versa
        if best is None or (turn < best[0] if dr else turn > best[0]):
            best = (turn, ns["edges"][side])
    if best is None:
        return True, 0, e[4] != 0, 0
    a = half(best[0])
    if e[4] == 0:
        return False, a, False, 0
    if e[4] == best[1][4] and e[5] == best[1][5]:
        return False, a, False, a
    return False, a, True, 0


def dress(ctx, t, name, sides, full=True, shown=False):
    """Arbitrary edge data on the given sides, others invisible."""
    for i in range(4):
        e = t.edge_data[i]
        if i in sides:
            e.visible = True if shown else ctx.bool("%s.v%d" % (name, i))
            e.caps = (ctx.bool("%s.c%d" % (name, i)), True)
            e.angles = (ctx.s("%s.a%d" % (name, i), 8), 3)
            e.filth_caps = (True, ctx.bool("%s.fc%d" % (name, i)))
            e.filth_angles = (4, ctx.s("%s.fa%d" % (name, i), 8))
            e.filth_spike = ctx.bool("%s.fk%d" % (name, i))
            e.filth_sprite_set = ctx.enum("%s.fs%d" % (name, i), TileSpriteSet) if full else TileSpriteSet(3)




def sprite(ctx, name, shape, part):
    """A tile with an arbitrary sprite; when `part` is given only that component is arbitrary."""
    t = tile(ctx, name, shape, False)
    if part is not None:
        got = t.get_sprite_tuple()
        t.set_sprite_tuple(tuple(got[i] if i == part else (TileSpriteSet(2), 7, 1)[i] for i in range(3)))
    return t


def run(ctx, case):
    k, s = case["k"], case["s"]
    lev = Level()
    tiles = {}

    def put(key, t, sides, full=True, shown=False):
        dress(ctx, t, "n%d" % len(tiles), sides, full, shown)
        lev.tiles[key] = t
        tiles[key] = (t, L.snap_tile(t))

    real = [i for i in range(4) if geom.exists(s, i)]
    part = (s + case["side"]) % 3 if k == "pair" else 3 if k == "multi" else None
    t0 = sprite(ctx, "t", s, part)
    if k == "alone":
        put((4, 2, 2), t0, real)
        if s % 2:
            put((5, 3, 2), tile(ctx, "u", 0, False), [0, 1, 2, 3][s % 4:s % 4 + 1])
    elif k == "all":
        put((4, 2, 2), t0, real)
        d = ctx.choice("d", [(-1, 0), (1, 0), (1, -1)])
        n = ctx.concrete(ctx.int("n", 0, 20))
        put((4, 2 + d[0], 2 + d[1]), tile(ctx, "u", n, False), [i for i in range(4) if geom.exists(n, i)])
    elif k == "pair":
        side = case["side"]
        put((4, 2, 2), t0, [side], True, True)
        ds = []
        for v in geom.ends(s, side):
            for d in CORNERS.get(v, ()):
                if d not in ds:
                    ds.append(d)
        d = ctx.choice("d", ds)
        n = ctx.concrete(ctx.int("n", 0, 20))
        put((4, 2 + d[0], 2 + d[1]), sprite(ctx, "u", n, part), [side] if geom.exists(n, side) else [])
    else:
        side = case["side"]
        put((4, 2, 2), t0, [side], False, True)
        dr, d1, n1, d2, n2 = ctx.choice("m", case["lst"])
        put((4, 2 + d1[0], 2 + d1[1]), sprite(ctx, "u", n1, 3), [side], False)
        put((4, 2 + d2[0], 2 + d2[1]), sprite(ctx, "w", n2, part), [side], False, True)
    lev.calculate_edge_caps()
    ctx.check(len(lev.tiles) == len(tiles), "tiles kept")
    for key, (t, snap) in tiles.items():
        for side in range(4):
            e, o = t.edge_data[side], snap["edges"][side]
            msg = "%s edge of shape %d" % (L.SIDES[side], int(snap["shape"]))
            ctx.check(e.solid == o[0] and e.visible == o[1], msg + ": solid and visible kept")
            if not o[1]:
                ctx.check(not e.caps[0] and not e.caps[1] and e.angles[0] == 0 and e.angles[1] == 0, msg + ": invisible, no caps")
                ctx.check(not e.filth_caps[0] and not e.filth_caps[1] and e.filth_angles[0] == 0 and e.filth_angles[1] == 0,
                          msg + ": invisible, no filth caps")
                continue
            ctx.check(e.filth_sprite_set == o[4] and e.filth_spike == o[5], msg + ": filth kept")
            for dr in (0, 1):
                cap, ang, fcap, fang = expect(ctx, tiles, key, side, dr)
                m2 = msg + (" second corner" if dr else " first corner")
                ctx.check(e.caps[dr] == cap, m2 + ": cap")
                ctx.check(e.angles[dr] == ang, m2 + ": angle")
                ctx.check(e.filth_caps[dr] == fcap, m2 + ": filth cap")
                ctx.check(e.filth_angles[dr] == fang, m2 + ": filth angle")
