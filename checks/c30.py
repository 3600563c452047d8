"""C30: typed accessors are exact views of the variable map."""

from checks import levels as L
from checks.c29 import value
from checks.common import raises
from dustmaker import entity as E
from dustmaker import replay as R
from dustmaker.level import Level, LevelType
from dustmaker.tile import Tile, TileSpriteSet
from dustmaker.variable import (
    VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableUInt, VariableVec2,
)

BOUNDS = {
    "quick": "every typed accessor of levels, start positions of players 1..4 and entity classes: absent, present with arbitrary value, "
    "assigned an arbitrary value, deleted, of another type; array accessors with 0..2 arbitrary members; fog layer indexes for all layers and "
    "sub layers, fog arrays of lengths around 21 and 546; tile helpers for all sprites and filth; replay "
    "helpers for players 1..9, any 3 entities, any frame around streams of 0..3 inputs",
    "thorough": "as quick",
}
OUTSIDE = "the private fog helper _fog_by_index"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 300}}
CLS = {"b": VariableBool, "i": VariableInt, "u": VariableUInt, "f": VariableFloat, "s": VariableString, "v": VariableVec2}
# type, attribute, variable, value type, default
SCALARS = [
    ("level", "name", "level_name", "s", b""), ("level", "virtual_character", "vector_character", "b", False),
    ("level", "level_type", "level_type", "i", 0), ("level", "dustmod_version", "dustmod_version", "s", b""),
    ("entity_emitter", "e_rotation", "e_rotation", "i", 0), ("entity_emitter", "draw_depth_sub", "draw_depth_sub", "u", 0),
    ("entity_emitter", "r_rotation", "r_rotation", "b", False), ("entity_emitter", "r_area", "r_area", "b", False),
    ("entity_emitter", "width", "width", "i", 480), ("entity_emitter", "height", "height", "i", 480),
    ("entity_emitter", "emitter_id", "emitter_id", "u", 0), ("level_end_prox", "finished", "finished", "b", False),
    ("base_trigger", "width", "width", "i", 500), ("fog_trigger", "width", "width", "i", 500),
    ("fog_trigger", "speed", "fog_speed", "f", 5.0), ("fog_trigger", "gradient_middle", "gradient_middle", "f", 0.0),
    ("fog_trigger", "star_bottom", "star_bottom", "f", 0.0), ("fog_trigger", "star_middle", "star_middle", "f", 0.4),
    ("fog_trigger", "star_top", "star_top", "f", 1.0), ("fog_trigger", "has_sub_layers", "has_sub_layers", "b", False),
    ("ambience_trigger", "speed", "ambience_speed", "f", 5.0), ("music_trigger", "speed", "music_speed", "f", 5.0),
    ("text_trigger", "hide", "hide", "b", False), ("text_trigger", "text", "text_string", "s", b""),
    ("kill_box", "width", "width", "i", 0), ("kill_box", "height", "height", "i", 0), ("AI_controller", "puppet", "puppet_id", "u", 0),
    ("camera_node", "node_type", "node_type", "i", 1), ("camera_node", "zoom", "zoom_h", "i", 1080),
    ("camera_node", "width", "width", "i", 520), ("level_end", "finished", "finished", "b", False),
    ("score_book", "book_type", "book_type", "s", b""), ("level_door", "file_name", "file_name", "s", b""),
    ("level_door", "door_set", "door_set", "i", 0), ("level_door", "width", "width", "i", 500),
    ("giga_gate", "keys_needed", "key_needed", "i", 1), ("enemy_bear", "scale", "dm_scale", "f", 1.0),
    ("hittable_apple", "scale", "dm_scale", "f", 1.0), ("dust_man", "scale", "dm_scale", "f", 1.0),
    ("enemy_trash_tire", "max_fall_speed", "max_fall_speed", "f", 800.0), ("enemy_key", "door", "door", "u", 0),
    ("enemy_key", "lastX", "lastKnowX", "f", 0.0), ("enemy_key", "lastY", "lastKnowY", "f", 0.0),
    ("custom_score_book", "level_list", "level_list_id", "i", 0),
]
ARRAYS = [
    ("check_point", "trigger_areas", "trigger_area", "v"), ("level_end_prox", "trigger_areas", "trigger_area", "v"),
    ("fog_trigger", "gradient", "gradient", "u"), ("fog_trigger", "colours", "fog_colour", "u"), ("fog_trigger", "pers", "fog_per", "f"),
    ("ambience_trigger", "sound_names", "sound_ambience_names", "s"), ("ambience_trigger", "sound_vols", "sound_ambience_vol", "f"),
    ("music_trigger", "sound_names", "sound_music_names", "s"), ("music_trigger", "sound_vols", "sound_music_vol", "f"),
    ("AI_controller", "nodes", "nodes", "v"), ("AI_controller", "node_wait_times", "nodes_wait_time", "i"),
    ("camera_node", "test_widths", "test_widths", "i"), ("camera_node", "nodes", "c_node_ids", "u"),
    ("camera_node", "control_widths", "control_widths", "v"), ("level_end", "entities", "ent_list", "u"),
    ("z_string_list", "data", "list", "s"),
]
DUST = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}


def cases(tier):
    out = [{"k": "scalar", "n": n} for n in range(len(SCALARS))]
    out += [{"k": "array", "n": n} for n in range(len(ARRAYS))]
    out += [{"k": "start", "p": p} for p in (1, 2, 3, 4)]
    out += [{"k": "fogindex", "sub": s} for s in (False, True)]
    for sub in (False, True):
        for n in ((0, 1, 20, 21, 22, 30) if not sub else (0, 21, 545, 546, 547)):
            out.append({"k": "fog", "sub": sub, "n": n})
    out += [{"k": "types"}, {"k": "sprite"}, {"k": "path"}, {"k": "filth"}, {"k": "dust"}, {"k": "copy"}, {"k": "replay"}]
    out += [{"k": "intent", "n": n, "s": i} for i in range(11) for n in (0, 1, 3)]
    return out


def owner(t):
    if t == "level":
        lev = Level()
        lev.variables = {}
        return lev
    return E.Entity._from_raw(t, {}, 0, 18, False, False, True)


def others(ctx, obj, marks, msg):
    for key, v in marks.items():
        got = obj.variables.get(key)
        ctx.check(got is not None and got.value == v, msg + ": other variables kept")


def kind(ctx, v, t, msg):
    want = {"b": bool, "i": int, "u": int, "f": float, "s": bytes, "v": tuple}[t]
    ctx.check(isinstance(v, want), msg + ": documented type")


def run(ctx, case):
    k = case["k"]
    if k == "scalar":
        t, attr, key, vt, default = SCALARS[case["n"]]
        scalar(ctx, owner(t), attr, key, vt, default)
        # set on one object, absent on another of the same class
        a, b = owner(t), owner(t)
        setattr(a, attr, value(ctx, vt, "w"))
        ctx.check(key not in b.variables and getattr(b, attr) == default, "objects are independent")
        return
    if k == "start":
        lev = Level()
        lev.variables = {}
        p = case["p"]
        pos = lev.start_position(p) if p > 1 or ctx.concrete(ctx.bool("explicit")) else lev.start_position()
        ctx.check(pos.x == 0 and pos.y == 0, "default start")
        x, y = ctx.s("x", 32), ctx.s("y", 32)
        pos.x = x
        pos.y = y
        ctx.check(lev.start_position(p).x == x and lev.start_position(p).y == y, "start position")
        ctx.check(len(lev.variables) == 2, "only this player's position")
        vx, vy = lev.variables["p%d_x" % p], lev.variables["p%d_y" % p]
        ctx.check(type(vx) is VariableInt and vx.value == x and type(vy) is VariableInt and vy.value == y, "stored start")
        for q in (1, 2, 3, 4):
            if q != p:
                ctx.check(lev.start_position(q).x == 0 and lev.start_position(q).y == 0, "other players")
        del pos.x
        ctx.check(pos.x == 0 and pos.y == y and len(lev.variables) == 1, "deleted start")
        return
    if k == "array":
        t, attr, key, vt = ARRAYS[case["n"]]
        cls = CLS[vt]
        obj = owner(t)
        obj.variables["zz"] = VariableInt(3)
        a = getattr(obj, attr)
        ctx.check(len(a) == 0 and a.element_type is cls, "empty by default")
        v, w = value(ctx, vt, "v"), value(ctx, vt, "w")
        again = getattr(obj, attr)
        ctx.check(len(again) == 0, "still empty")
        a.append(v)
        getattr(obj, attr).append(w)
        st = obj.variables.get(key)
        ctx.check(type(st) is VariableArray and st.element_type is cls and list(st) == [v, w], "array stored in the variables")
        getattr(obj, attr)[0] = w
        ctx.check(list(obj.variables[key]) == [w, w], "element assignment stored")
        ctx.check(len(obj.variables) == 2, "no other variables")
        new = VariableArray(cls, [cls(v)])
        setattr(obj, attr, new)
        ctx.check(list(getattr(obj, attr)) == [v], "array assigned")
        # an array that is stored empty is the one that is filled
        new = VariableArray(cls, [])
        setattr(obj, attr, new)
        ctx.check(len(getattr(obj, attr)) == 0 and obj.variables[key] is new, "empty array assigned")
        new.append(w)
        ctx.check(list(getattr(obj, attr)) == [w], "empty array filled")
        delattr(obj, attr)
        ctx.check(key not in obj.variables and len(getattr(obj, attr)) == 0, "array deleted")
        ctx.check(len(getattr(owner(t), attr)) == 0, "objects are independent")
        obj.variables[key] = VariableInt(1)
        ctx.check(raises(lambda: getattr(obj, attr), ValueError) is not None, "value of another type reported")
        return
    if k == "fogindex":
        layer = ctx.int("layer", -2, 23)
        sub = ctx.int("sub", -2, 27) if case["sub"] else None
        ok = layer >= 0 and layer <= 20 and (sub is None or (sub >= 0 and sub <= 24))
        if ok:
            i = E.FogTrigger.get_layer_index(layer, sub) if sub is not None else E.FogTrigger.get_layer_index(layer)
            ctx.check(i == (layer if sub is None else 21 + 21 * sub + layer), "fog index")
            ctx.check(i >= 0 and i < (21 if sub is None else 546), "fog index in range")
        else:
            r = raises(lambda: E.FogTrigger.get_layer_index(layer, sub), AssertionError, ValueError, IndexError)
            ctx.check(r is not None, "bad fog layer rejected")
        return
    if k == "fog":
        f = E.FogTrigger()
        n = case["n"]
        if case["sub"]:
            f.has_sub_layers = True
        want = 546 if case["sub"] else 21
        cs = [ctx.u("c%d" % i, 24) if i in (0, 20, 21, n - 1) else i for i in range(n)]
        ps = [i / 4 for i in range(n)]
        f.colours = VariableArray(VariableUInt, [VariableUInt(c) for c in cs])
        f.pers = VariableArray(VariableFloat, [VariableFloat(p) for p in ps])
        g = ctx.concrete(ctx.int("g", 0, 5))
        f.gradient = VariableArray(VariableUInt, [VariableUInt(40 + i) for i in range(g)])
        f.normalize()
        ctx.check(len(f.colours) == want and len(f.pers) == want and len(f.gradient) == 3, "normalized lengths")
        ctx.check(list(f.colours) == (cs + [0x111118] * want)[:want], "colours kept and padded")
        ctx.check(list(f.pers) == (ps + [0.0] * want)[:want], "mix kept and padded")
        ctx.check(list(f.gradient) == ([40 + i for i in range(g)] + [0, 0, 0])[:3], "gradient kept and padded")
        return
    if k == "copy":
        x = ctx.s("x", 32)
        src = {"width": VariableInt(x)}
        e = E.DeathZone(src)
        e.width = 7
        e.height = 8
        ctx.check(src["width"].value == x and len(src) == 1, "the given variables are copied")
        arr = {"list": VariableArray(VariableString, [VariableString(b"a")])}
        s = E.StringList(arr)
        s.data.append(b"b")
        ctx.check(list(arr["list"]) == [b"a"], "nested variables are copied")
        return
    if k == "replay":
        # camera data is kept under 1 + 2 * player, player data under 2 * player
        rep = R.Replay()
        ids = [ctx.int("id%d" % i, 0, 20) for i in range(3)]
        for i in range(3):
            for j in range(i):
                ctx.assume(ids[i] != ids[j])
        data = [R.EntityData([R.EntityFrame(frame=i)]) for i in range(3)]
        for i in range(3):
            rep.entities[ids[i]] = data[i]
        p = ctx.int("p", 1, 9)
        for got, uid in ((rep.get_player_entity_data(p), 2 * p), (rep.get_camera_entity_data(p), 1 + 2 * p)):
            hit = None
            for i in range(3):
                if ids[i] == uid:
                    hit = data[i]
            ctx.check(got is hit, "replay entity data")
        for got, uid in ((rep.get_player_entity_data(), 2), (rep.get_camera_entity_data(), 3)):
            hit = None
            for i in range(3):
                if ids[i] == uid:
                    hit = data[i]
            ctx.check(got is hit, "replay entity data of the first player")
        ctx.check(len(rep.entities) == 3, "entities kept")
        return
    if k == "intent":
        pl = R.PlayerData()
        n = case["n"]
        vals = [ctx.int("v%d" % i, -1, 3) for i in range(n)]
        st = R.IntentStream(case["s"])
        if n:
            pl.intents[st] = list(vals)
        f = ctx.int("f", -3, n + 3)
        got = pl.get_intent_value(st, f)
        if f >= 0 and f < n:
            for i in range(n):
                if f == i:
                    ctx.check(got == vals[i], "input at a frame")
        else:
            ctx.check(got == 0, "neutral input outside the stream")
        other = R.IntentStream((case["s"] + 1) % 11)
        ctx.check(pl.get_intent_value(other, 0) == 0 and len(pl.intents) == (1 if n else 0), "other streams")
        return
    if k == "types":
        lev = Level()
        for name, n in (("NORMAL", 0), ("NEXUS", 1), ("NEXUS_MP", 2), ("KOTH", 3), ("SURVIVAL", 4), ("DUSTMOD", 6)):
            lev.level_type = getattr(LevelType, name)
            ctx.check(lev.variables["level_type"].value == n and lev.level_type == n, "level type " + name)
        return
    t = L.tile(ctx, "t", 0)
    s = L.snap_tile(t)
    if k == "sprite":
        ctx.check(t.get_sprite_tuple() == (s["sprite_set"], s["sprite_tile"], s["sprite_palette"]), "sprite tuple")
        u = Tile()
        u.set_sprite_tuple(t.get_sprite_tuple())
        ctx.check(u.sprite_set == s["sprite_set"] and u.sprite_tile == s["sprite_tile"] and u.sprite_palette == s["sprite_palette"],
                  "sprite copied")
        L.check_tile(ctx, t, s, "source tile")
    elif k == "path":
        t.sprite_set, n, p = ctx.concrete(t.sprite_set), ctx.concrete(ctx.int("n", 0, 11)), ctx.concrete(ctx.int("p", 0, 11))
        t.sprite_tile, t.sprite_palette = n, p
        name = {0: "none_0", 1: "mansion", 2: "forest", 3: "city", 4: "laboratory", 5: "tutorial", 6: "nexus", 7: "none_7"}[int(t.sprite_set)]
        ctx.check(t.sprite_path == "area/%s/tiles/tile%d_%d_0001.png" % (name, n, p + 1), "sprite path")
    elif k == "filth":
        want = False
        for e in s["edges"]:
            want = want or e[4] != 0
        ctx.check(t.has_filth() == want, "has_filth")
        L.check_tile(ctx, t, s, "tile")
    else:
        ss = ctx.concrete(t.sprite_set)
        t.sprite_set = ss
        d = DUST.get(int(ss), None)
        ctx.check(t.is_dustblock() == (d is not None and s["sprite_tile"] == d), "is_dustblock")
        L.check_tile(ctx, t, s, "tile")
        r = raises(t.set_dustblock, ValueError)
        ctx.check((r is None) == (d is not None), "sprite sets with dust blocks")
        if r is None:
            ctx.check(t.is_dustblock() and t.sprite_tile == d and t.sprite_palette == 1 and t.sprite_set == ss, "made a dust block")
            s["sprite_tile"], s["sprite_palette"] = d, 1
        L.check_tile(ctx, t, s, "tile after set_dustblock")


def scalar(ctx, obj, attr, key, vt, default):
    cls = CLS[vt]
    obj.variables = {"zz": VariableInt(3), "aa": VariableString(b"q")}
    marks = {"zz": 3, "aa": b"q"}
    v = getattr(obj, attr)
    ctx.check(v == default, "default")
    kind(ctx, v, vt, "default")
    ctx.check(len(obj.variables) == 2, "reading adds nothing")
    setattr(obj, attr, v)
    ctx.check(getattr(obj, attr) == default, "default assigned back")
    delattr(obj, attr)
    v = value(ctx, vt, "v")
    setattr(obj, attr, v)
    got = getattr(obj, attr)
    ctx.check(got == v, "assigned value read back")
    kind(ctx, got, vt, "value")
    st = obj.variables.get(key)
    ctx.check(type(st) is cls and st.value == v, "stored under its name and type")
    ctx.check(len(obj.variables) == 3, "one variable added")
    others(ctx, obj, marks, "assignment")
    u = value(ctx, vt, "u")
    obj.variables[key] = cls(u)
    ctx.check(getattr(obj, attr) == u, "variable seen through the accessor")
    delattr(obj, attr)
    ctx.check(key not in obj.variables and len(obj.variables) == 2 and getattr(obj, attr) == default, "deleted")
    delattr(obj, attr)
    others(ctx, obj, marks, "deletion")
    obj.variables[key] = VariableVec2((0.0, 0.0))
    ctx.check(raises(lambda: getattr(obj, attr), ValueError) is not None, "value of another type reported")
    del obj.variables[key]
    bad = {"b": 1, "i": b"x", "u": -1, "f": b"x", "s": 5}[vt]
    ctx.check(raises(lambda: setattr(obj, attr, bad), AssertionError, ValueError, TypeError) is not None, "wrong type refused")
    ctx.check(key not in obj.variables, "refused value not stored")
