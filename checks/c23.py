"""C23: positions and sizes stored inside entities move with the level."""

from checks import geom, levels as L
from checks.c22 import matrix, pick, point
from dustmaker import entity as E
from dustmaker.level import Level
from dustmaker.transform import TxMatrix
from dustmaker.variable import (VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableUInt,
                                VariableVec2)

BOUNDS = {
    "quick": "checkpoints and end zones with 0..6 trigger areas, controllers with 0..6 way points, keys, death zones, camera nodes, every "
    "hittable type; all stored numbers arbitrary (16 bit, quarter fractions), all 8 axis-aligned maps with arbitrary offsets, scale 1..4; "
    "with the variable present or absent; other entity types keep all variables",
    "thorough": "as quick with up to 11 points",
}
OUTSIDE = "maps that are not axis-aligned or scale by a fraction; stored vectors beyond 16 bit"
HIT = ["enemy_tutorial_square", "enemy_tutorial_hexagon", "enemy_slime_beast", "enemy_slime_barrel", "enemy_spring_ball",
       "enemy_slime_ball", "enemy_trash_tire", "enemy_trash_beast", "enemy_trash_can", "enemy_trash_ball", "enemy_bear",
       "enemy_stoneboss", "enemy_stonebro", "enemy_porcupine", "enemy_wolf", "enemy_critter", "enemy_flag", "enemy_scrolls",
       "enemy_treasure", "enemy_chest_treasure", "enemy_chest_scrolls", "enemy_butler", "enemy_maid", "enemy_knight",
       "enemy_gargoyle_big", "enemy_gargoyle_small", "enemy_book", "enemy_hawk", "enemy_key", "enemy_door",
       "hittable_apple", "dust_man", "dust_girl", "dust_kid", "dust_worth", "dust_wraith", "leaf_sprite", "trash_king",
       "slime_boss"]
PLAIN = ["entity_emitter", "base_trigger", "fog_trigger", "ambience_trigger", "music_trigger", "special_trigger",
         "text_trigger", "level_end", "score_book", "level_door", "giga_gate", "custom_score_book", "z_string_list",
         "something_else"]


def cases(tier):
    out = []
    for t in ("check_point", "level_end_prox", "AI_controller"):
        for n in range(7 if tier == "quick" else 12):
            out.append({"k": "points", "t": t, "n": n})
    for k in ("zone", "camera", "key"):
        for have in (True, False):
            out.append({"k": k, "have": have})
    for i in range(0, len(HIT), 8):
        out.append({"k": "hit", "i": i})
    for t in PLAIN:
        out.append({"k": "plain", "t": t})
    out.append({"k": "upscale"})
    for t in ("check_point", "AI_controller", "kill_box", "camera_node", "enemy_key", "enemy_bear"):
        out.append({"k": "written", "t": t})
    return out


def arr(cls, values):
    return VariableArray(cls, [cls(v) for v in values])


def make(t, variables=None):
    return E.Entity._from_raw(t, variables or {}, 0, 18, False, False, True)


def q(ctx, name):
    return ctx.flt(name, -(1 << 15), (1 << 15) - 1, 4)


def setup(ctx):
    lin = pick(ctx)
    s = ctx.concrete(ctx.int("s", 1, 4))
    ox, oy = ctx.s("ox", 14), q(ctx, "oy")
    a, b, c, d = lin
    return lin, s, ox, oy, TxMatrix(((a * s, b * s, ox), (c * s, d * s, oy), (0, 0, 1)))


def near(ctx, got, want, msg):
    ctx.check(got[0] == want[0], msg + " (x)")
    ctx.check(got[1] == want[1], msg + " (y)")


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "upscale":
        f = ctx.concrete(ctx.int("f", 1, 4))
        z = make("kill_box", {"width": VariableInt(ctx.s("w", 16)), "height": VariableInt(ctx.s("h", 16))})
        ctx.assume(z.width >= 0 and z.height >= 0)
        w, h = z.width, z.height
        pts = [(q(ctx, "x"), q(ctx, "y"))]
        ai = make("AI_controller", {"nodes": arr(VariableVec2, list(pts))})
        cp = make("check_point", {"trigger_area": arr(VariableVec2, list(pts))})
        for i, e in enumerate((z, ai, cp)):
            lev.add_entity(1.0, 2.0, e, 200 + i)
        lev.upscale(f)
        ctx.check(z.width == w * f and z.height == h * f, "death zone grows with the level")
        near(ctx, ai.nodes[0], (pts[0][0] * f, pts[0][1] * f), "way point")
        near(ctx, cp.trigger_areas[0], (pts[0][0] * f, pts[0][1] * f), "trigger area")
        return
    if k == "written":
        # the transformed level can be saved and loads with the transformed values
        lin = pick(ctx)
        s = ctx.concrete(ctx.int("s", 1, 2))
        a, b, c, d = [v * s for v in lin]
        mat = TxMatrix(((a, b, 96), (c, d, -480), (0, 0, 1)))
        n, p = ctx.int("n", 0, 30000), (q(ctx, "x"), q(ctx, "y"))
        e = make(case["t"], {
            "check_point": {"trigger_area": arr(VariableVec2, [p])}, "AI_controller": {"nodes": arr(VariableVec2, [p])},
            "kill_box": {"width": VariableInt(n), "height": VariableInt(4)},
            "camera_node": {"zoom_h": VariableInt(n), "width": VariableInt(7)},
            "enemy_key": {"lastKnowX": VariableFloat(p[0]), "lastKnowY": VariableFloat(p[1])},
            "enemy_bear": {"dm_scale": VariableFloat(2.0)}}[case["t"]])
        lev.add_entity(1000.0, 2000.0, e, 200)
        st = lev.start_position(1)
        st.x, st.y = n, 5
        lev.transform(mat)
        got = L.round_trip(lev)
        ctx.check(200 in got.entities, "entity saved")
        if 200 not in got.entities:
            return
        g = got.entities[200][2]
        if case["t"] == "check_point":
            near(ctx, g.trigger_areas[0], point((a, b, c, d), 0, 0, p[0], p[1]), "saved trigger area")
        elif case["t"] == "AI_controller":
            near(ctx, g.nodes[0], point((a, b, c, d), 96, -480, p[0], p[1]), "saved way point")
        elif case["t"] == "kill_box":
            near(ctx, (g.width, g.height), (s * n, 4 * s) if lin[0] else (4 * s, s * n), "saved death zone")
        elif case["t"] == "camera_node":
            near(ctx, (g.zoom, g.width), (s * n, 7 * s), "saved camera")
        elif case["t"] == "enemy_key":
            near(ctx, (g.lastX, g.lastY), point((a, b, c, d), 96, -480, p[0], p[1]), "saved last position")
        else:
            ctx.check(g.scale == 2 * s, "saved scale")
        sp = got.start_position(1)
        near(ctx, (sp.x, sp.y), point((a, b, c, d), 96, -480, n, 5), "saved start position")
        return
    lin, s, ox, oy, mat = setup(ctx)
    # whatever its type, an entity turns the way a plain entity does
    turn = (ctx.u("rot", 16), 18, ctx.bool("fx"), ctx.bool("fy"), ctx.bool("vis"))
    twin = E.Entity({}, *turn)
    types = case["t"] if k in ("points", "plain") else HIT[case["i"]:case["i"] + 8] if k == "hit" else \
        {"zone": "kill_box", "camera": "camera_node", "key": "enemy_key"}[k]
    turned = [E.Entity._from_raw(t, {}, *turn) for t in ([types] if isinstance(types, str) else types)]
    for e in [twin] + turned:
        lev.add_entity(5.0, 6.0, e)
    orig = lev.transform

    def transform(m):
        orig(m)
        for e in turned:
            for f in ("rotation", "layer", "flip_x", "flip_y", "visible"):
                ctx.check(getattr(e, f) == getattr(twin, f), "%s: %s" % (e.etype, f))
    lev.transform = transform
    lin_s = tuple(v * s for v in lin)
    keep = ctx.s("keep", 32)
    if k == "points":
        t = case["t"]
        pts = [(q(ctx, "x%d" % i), q(ctx, "y%d" % i)) for i in range(case["n"])]
        key = "nodes" if t == "AI_controller" else "trigger_area"
        e = make(t, {key: arr(VariableVec2, list(pts)), "keep": VariableInt(keep),
                     "nodes_wait_time": arr(VariableInt, [keep, 3])})
        lev.add_entity(q(ctx, "ex"), 3.0, e, 200)
        lev.transform(mat)
        got = e.nodes if t == "AI_controller" else e.trigger_areas
        ctx.check(len(got) == len(pts), "number of points")
        for i, (x, y) in enumerate(pts):
            if t == "AI_controller":
                # way points are level positions
                near(ctx, got[i], point(lin_s, ox, oy, x, y), "way point %d" % i)
            else:
                # trigger areas are relative to the entity
                near(ctx, got[i], point(lin_s, 0, 0, x, y), "trigger area %d" % i)
        ctx.check(e.variables["keep"].value == keep, "other variables")
        w = e.variables["nodes_wait_time"]
        ctx.check(len(w) == 2 and w[0] == keep and w[1] == 3, "wait times")
        return
    if k == "zone":
        w, h = ctx.int("w", 0, 40000), ctx.int("h", 0, 40000)
        e = make("kill_box", {"width": VariableInt(w), "height": VariableInt(h)} if case["have"] else {})
        if not case["have"]:
            w = h = 0
        lev.add_entity(1.0, 2.0, e, 200)
        lev.transform(mat)
        turned = lin[0] == 0
        ctx.check(e.width == s * (h if turned else w), "death zone width")
        ctx.check(e.height == s * (w if turned else h), "death zone height")
        return
    if k == "camera":
        z, w = ctx.int("z", 0, 40000), ctx.int("w", 0, 40000)
        e = make("camera_node", {"zoom_h": VariableInt(z), "width": VariableInt(w)} if case["have"] else {})
        if not case["have"]:
            z, w = 1080, 520
        e.test_widths.append(ctx.s("tw", 16))
        lev.add_entity(1.0, 2.0, e, 200)
        lev.transform(mat)
        ctx.check(e.zoom == s * z, "camera zoom")
        ctx.check(e.width == s * w, "camera width")
        ctx.check(len(e.test_widths) == 1, "test widths")
        return
    if k == "key":
        x, y, door = q(ctx, "x"), q(ctx, "y"), ctx.u("door", 31)
        e = make("enemy_key", {"lastKnowX": VariableFloat(x), "lastKnowY": VariableFloat(y),
                               "door": VariableUInt(door)} if case["have"] else {})
        if not case["have"]:
            x = y = 0.0
            door = 0
        lev.add_entity(1.0, 2.0, e, 200)
        lev.transform(mat)
        near(ctx, (e.lastX, e.lastY), point(lin_s, ox, oy, x, y), "last known position")
        ctx.check(e.door == door, "door")
        ctx.check(e.scale == s, "scale")
        return
    if k == "hit":
        es = []
        for i, t in enumerate(HIT[case["i"]:case["i"] + 8]):
            v = ctx.flt("sc%d" % i, 1, 4096, 64)
            e = make(t, {"dm_scale": VariableFloat(v), "keep": VariableInt(keep)} if i % 4 else {"keep": VariableInt(keep)})
            lev.add_entity(10.0 * i, 4.0, e, 300 + i)
            es.append((t, e, v if i % 4 else 1.0))
        lev.transform(mat)
        for t, e, v in es:
            ctx.check(e.variables.get("dm_scale", VariableFloat(1.0)).value == v * s, t + " scale")
            ctx.check(e.variables["keep"].value == keep, t + " other variables")
        return
    vs = {"keep": VariableInt(keep), "width": VariableInt(ctx.s("w", 32)), "f": VariableFloat(q(ctx, "f")),
          "vec": VariableVec2((q(ctx, "vx"), q(ctx, "vy"))), "arr": arr(VariableVec2, [(q(ctx, "ax"), 1.0)]),
          "str": VariableString(ctx.bytes("st", 2)), "flag": VariableBool(ctx.bool("b"))}
    want = (keep, vs["width"].value, vs["f"].value, vs["vec"].value, vs["arr"][0], vs["str"].value, vs["flag"].value)
    e = make(case["t"], dict(vs))
    lev.add_entity(1.0, 2.0, e, 200)
    lev.transform(mat)
    v = e.variables
    ctx.check(v["keep"].value == want[0] and v["width"].value == want[1], "integers unchanged")
    ctx.check(v["f"].value == want[2], "float unchanged")
    near(ctx, v["vec"].value, want[3], "vector unchanged")
    near(ctx, v["arr"][0], want[4], "array unchanged")
    ctx.check(v["str"].value == want[5] and v["flag"].value == want[6], "string and flag unchanged")
    ctx.check(len(v) == len(vs), "no variables appear")
