"""C36: saving changes nothing, is repeatable, and separate objects share no state."""

import io

from checks import levels as L
from checks.c13 import MAPS, fill
from checks.c23 import arr, make
from checks.replays import frame, meaning, raw
from checks.vars import build_map, check_map
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import AIController, CameraNode, CheckPoint, Entity, FogTrigger
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.replay import Character, EntityData, IntentStream, PlayerData, Replay
from dustmaker.tile import Tile, TileShape
from dustmaker.variable import VariableArray, VariableInt, VariableString, VariableStruct, VariableUInt, VariableVec2

BOUNDS = {
    "quick": "levels holding variables of every type, a thumbnail, 1..3 arbitrary tiles, props and entities in one to five regions and in the backdrop; replays of "
    "two players and two entities; variable files; each saved twice, and loaded and saved again; two loads of the same bytes; default-constructed objects of every "
    "class; merging and upscaling (every shape, factor 2 and 3), with arbitrary values written into one of the two objects afterwards",
    "thorough": "as quick with factors up to 6 and every variable map",
}
OUTSIDE = "zlib replaced by an identity codec; objects the caller deliberately puts into two levels"
OPTS = {"quick": {"case": 120, "chunk": 16}, "thorough": {"case": 300, "chunk": 16}}

OWN = [[], [["a", "b"], ["b", "i"], ["c", "u"]], [["name", ["a", "s", ["s1", "s2"]]]], [["q", "f"]], [["v", "v"]], [["x", ["t", [["y", "i"], ["z", "b"]]]], ["s", "s3"]],
       [["n", ["a", "a", [["a", "i", ["i"]], ["a", "i", []]]]]], [[1, "b"]]]


def cases(tier):
    out = []
    for m in range(len(OWN)):
        out.append({"k": "vars", "m": m})
    for spread, m in [(m % 3, m) for m in range(len(OWN))] if tier == "quick" else [(s, m) for s in range(3) for m in range(len(OWN))]:
        out.append({"k": "level", "m": m, "spread": spread})
    out.append({"k": "filth"})
    for ver in (1, 3, 4):
        for st in (0, 5) if ver != 4 else (0, 2, 8, 10):
            out.append({"k": "replay", "ver": ver, "st": st})
    out += [{"k": k} for k in ("fresh", "entvars", "boxes", "merge", "readtwice", "readreplay", "readvars", "accessors")]
    for f in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for s in range(21):
            out.append({"k": "upscale", "s": s, "f": f})
    return out


def snap_level(lev):
    """Value snapshot of everything stored in a level."""
    out = {"sshot": lev.sshot, "vars": list(lev.variables), "next": lev._gen_id}
    for name, part in (("", lev), ("back ", lev.backdrop)):
        out[name + "tiles"] = [(k, L.snap_tile(t)) for k, t in part.tiles.items()]
        out[name + "props"] = [(k, r[0], r[1], r[2], L.snap_prop(r[3])) for k, r in part.props.items()]
        out[name + "entities"] = [(k, r[0], r[1], L.snap_entity(r[2]), list(r[2].variables)) for k, r in part.entities.items()]
    return out


def check_level(ctx, lev, want, msg):
    ctx.check(lev.sshot == want["sshot"], msg + ": thumbnail")
    ctx.check(list(lev.variables) == want["vars"], msg + ": variable names")
    for name, part in (("", lev), ("back ", lev.backdrop)):
        m = msg + ": " + name
        ctx.check(list(part.tiles) == [k for k, _ in want[name + "tiles"]], m + "tile places")
        for (k, s) in want[name + "tiles"]:
            t = part.tiles.get(k)
            if t is not None:
                L.check_tile(ctx, t, s, m + "tile")
        ctx.check(list(part.props) == [r[0] for r in want[name + "props"]], m + "prop ids")
        for k, a, x, y, s in want[name + "props"]:
            r = part.props.get(k)
            if r is not None:
                ctx.check(r[0] == a and r[1] == x and r[2] == y, m + "prop place")
                L.check_prop(ctx, r[3], s, m + "prop")
        ctx.check(list(part.entities) == [r[0] for r in want[name + "entities"]], m + "entity ids")
        for k, x, y, s, vs in want[name + "entities"]:
            r = part.entities.get(k)
            if r is not None:
                ctx.check(r[0] == x and r[1] == y, m + "entity place")
                L.check_entity(ctx, r[2], s, m + "entity")
                ctx.check(list(r[2].variables) == vs, m + "entity variables")


def same(ctx, a, b, msg):
    ctx.check(len(a) == len(b), msg + ": size")
    if len(a) == len(b):
        for i in range(len(a)):
            ctx.check(a[i] == b[i], msg)


def replay_bytes(rep):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep)
    w.close()
    return buf.getvalue()


def vars_bytes(vs):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_var_file(b"DF_STA", vs)
    w.close()
    return buf.getvalue()


def poke_tile(ctx, t, name):
    """Overwrite every attribute of a tile in place."""
    n = L.tile(ctx, name)
    t.shape, t.tile_flags, t.sprite_set = n.shape, n.tile_flags, n.sprite_set
    t.sprite_tile, t.sprite_palette = n.sprite_tile, n.sprite_palette
    for i in range(4):
        e, o = t.edge_data[i], n.edge_data[i]
        for f in L.EDGE_FIELDS + L.FILTH_FIELDS:
            setattr(e, f, getattr(o, f))


def make_replay(ctx, ver, arb):
    rep = Replay(version=ver, username=ctx.bytes("un", 2), level=ctx.bytes("lv", 2), frames=ctx.u("fr", 32))
    for p in range(1 if ver == 1 else 2):
        pd = PlayerData(ctx.enum("ch%d" % p, Character) if ver != 1 else Character.DUSTMAN)
        for st in (0, 2, 5, 8, 10) if ver == 4 else (0, 2, 5):
            vals = [meaning(st, raw(ctx, "p%d.s%d.%d" % (p, st, i), st) if st == arb and p == 0 else 2) for i in range(2)]
            pd.intents[IntentStream(st)] = vals
        rep.players.append(pd)
    for e in range(2):
        rep.entities[e * 7 + 2] = EntityData([frame(ctx, "e%d" % e)[0]])
    return rep


def snap_replay(rep):
    return (rep.version, rep.username, rep.level, rep.frames,
            [(p.character, [(k, list(v)) for k, v in p.intents.items()]) for p in rep.players],
            [(k, [(f.frame, f.x_pos, f.y_pos, f.x_speed, f.y_speed) for f in d.frames]) for k, d in rep.entities.items()])


def run(ctx, case):
    k = case["k"]
    if k == "level":
        lev = Level()
        lev.variables, refs = build_map(ctx, OWN[case["m"]], "v")
        lev.sshot = ctx.bytes("ss", 3)
        fill(ctx, lev, "a", case["spread"])
        before = snap_level(lev)
        a = L.level_bytes(lev)
        check_level(ctx, lev, before, "saved level")
        check_map(ctx, lev.variables, refs, "variables of the saved level")
        b = L.level_bytes(lev)
        same(ctx, a, b, "saving again gives the same file")
        c = L.level_bytes(L.level_from(a))
        same(ctx, a, c, "saving a loaded level reproduces the file")
    elif k == "filth":
        lev = Level()
        ts = [L.tile(ctx, "t%d" % i) for i in range(2)]
        for t in ts:
            ctx.assume(L.has_filth(t))
        lev.tiles[(19, 2, 3)], lev.tiles[(19, 5, 1)] = ts
        before = snap_level(lev)
        a = L.level_bytes(lev)
        check_level(ctx, lev, before, "saved level")
        b = L.level_bytes(lev)
        same(ctx, a, b, "saving again gives the same file")
        c = L.level_bytes(L.level_from(a))
        same(ctx, a, c, "saving a loaded level reproduces the file")
    elif k == "replay":
        rep = make_replay(ctx, case["ver"], case["st"])
        before = snap_replay(rep)
        a = replay_bytes(rep)
        ctx.check(snap_replay(rep) == before, "saving changed the replay")
        b = replay_bytes(rep)
        same(ctx, a, b, "saving again gives the same replay file")
        c = replay_bytes(DFReader(io.BytesIO(a)).read_replay())
        same(ctx, a, c, "saving a loaded replay reproduces the file")
    elif k == "vars":
        vs, refs = build_map(ctx, OWN[case["m"]], "v")
        names = list(vs)
        a = vars_bytes(vs)
        ctx.check(list(vs) == names, "names and their order")
        check_map(ctx, vs, refs, "saved variables")
        b = vars_bytes(vs)
        same(ctx, a, b, "saving again gives the same file")
        c = vars_bytes(DFReader(io.BytesIO(a)).read_var_file(b"DF_STA"))
        same(ctx, a, c, "saving loaded variables reproduces the file")
    elif k == "fresh":
        n = ctx.s("n", 32)
        a, b = Level(), Level()
        want = snap_level(b)
        a.tiles[(1, 2, 3)] = Tile()
        a.add_prop(1, 2.0, 3.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1), 500)
        a.add_entity(2.0, 3.0, Entity(), 501)
        a.variables["k"] = VariableInt(n)
        a.dustmod_version = b"other"
        a.backdrop.tiles[(1, 2, 3)] = Tile()
        a.backdrop.variables["k"] = VariableInt(n)
        a.backdrop.add_prop(1, 2.0, 3.0, Prop(1, 0, False, False, 1.0, 1, 1, 1, 1), 502)
        for lev in (b, Level()):
            check_level(ctx, lev, want, "another level")
            ctx.check(lev.dustmod_version == b"dustmaker", "version of another level")
            ctx.check(len(lev.backdrop.variables) == len(b.backdrop.variables) and "k" not in lev.backdrop.variables, "backdrop variables")
            ctx.check(lev.add_entity(0.0, 0.0, Entity()) < 500, "ids of another level")
        ctx.check("k" not in a.backdrop.props and len(a.props) == 1, "backdrop and foreground")
        s, t = Tile(), Tile()
        tw = L.snap_tile(t)
        poke_tile(ctx, s, "s")
        L.check_tile(ctx, t, tw, "another tile")
        L.check_tile(ctx, Tile(), tw, "new tile")
        s = Tile()
        e0 = L.edge(ctx, "e0")
        for f in L.EDGE_FIELDS:
            setattr(s.edge_data[0], f, getattr(e0, f))
        for i in (1, 2, 3):
            L.check_edge(ctx, s.edge_data[i], tw["edges"][i], "another edge of the tile")
        e, f = Entity(), Entity()
        e.variables["k"] = VariableInt(n)
        ctx.check(len(f.variables) == 0 and len(Entity().variables) == 0, "variables of another entity")
        p, q = PlayerData(), PlayerData()
        p.intents[IntentStream.X] = [1]
        ctx.check(len(q.intents) == 0, "intents of another player")
        r, s = Replay(), Replay()
        r.players.append(p)
        r.entities[3] = EntityData()
        r.entities[3].frames.append(frame(ctx, "f")[0])
        ctx.check(len(s.players) == 0 and len(s.entities) == 0 and len(EntityData().frames) == 0, "another replay")
        v, w = VariableArray(VariableInt), VariableArray(VariableInt)
        v.append(n)
        ctx.check(len(v) == 1 and len(w) == 0 and len(VariableArray(VariableInt)) == 0, "another array")
        x, y = VariableStruct(), VariableStruct()
        x.value["k"] = VariableInt(n)
        ctx.check(len(y.value) == 0 and len(VariableStruct().value) == 0, "another struct")
    elif k == "entvars":
        n, m = ctx.s("n", 32), ctx.s("m", 32)
        d = {"k": VariableInt(n), "a": arr(VariableInt, [n]), "t": VariableStruct({"x": VariableInt(n)})}
        for e, o in ((Entity(d), Entity(d)), (CheckPoint(d), make("check_point", d))):
            e.variables["k"].value = m
            e.variables["a"].append(m)
            e.variables["a"][0] = m
            e.variables["t"].value["x"].value = m
            e.variables["new"] = VariableInt(m)
            for vs in (o.variables, d):
                ctx.check(len(vs) == 3 and vs["k"].value == n, "variables given to another entity")
                ctx.check(len(vs["a"]) == 1 and vs["a"][0] == n, "array given to another entity")
                ctx.check(vs["t"].value["x"].value == n, "struct given to another entity")
            ctx.check(e.variables["k"].value == m and e.variables["a"][0] == m, "own variables")
    elif k == "boxes":
        n, m = ctx.s("n", 32), ctx.s("m", 32)
        base = [VariableInt(n), VariableInt(m)]
        a, b = VariableArray(VariableInt, base), VariableArray(VariableInt, base)
        a.append(m)
        a[0] = m
        del a[1]
        for o in (b, VariableArray(VariableInt, base)):
            ctx.check(len(o) == 2 and o[0] == n and o[1] == m, "array created from the same list")
        ctx.check(len(base) == 2 and base[0].value == n, "list an array was created from")
        base = {"k": VariableInt(n)}
        a, b = VariableStruct(base), VariableStruct(base)
        a.value["m"] = VariableInt(m)
        a.value["k"] = VariableInt(m)
        for o in (b.value, base, VariableStruct(base).value):
            ctx.check(len(o) == 1 and o["k"].value == n, "struct created from the same mapping")
        a, b = VariableArray(VariableInt), VariableArray(VariableInt)
        a.append(n)
        c, d = VariableStruct(), VariableStruct()
        c.value["x"] = VariableInt(n)
        ctx.check(len(b) == 0 and len(VariableArray(VariableInt)) == 0, "empty arrays")
        ctx.check(len(d.value) == 0 and len(VariableStruct().value) == 0, "empty structs")
    elif k == "accessors":
        x = ctx.u("x", 32)
        a, b = AIController(), AIController()
        a.nodes.append((1.0, 2.0))
        a.node_wait_times.append(3)
        ctx.check(len(b.nodes) == 0 and len(b.node_wait_times) == 0 and len(AIController().nodes) == 0, "arrays of another controller")
        ctx.check(len(a.nodes) == 1 and len(a.node_wait_times) == 1, "own arrays")
        a, b = CameraNode(), CameraNode()
        a.nodes.append(x)
        ctx.check(len(b.nodes) == 0 and len(a.test_widths) == 0 and a.nodes[0] == x, "arrays of another camera")
        a, b = FogTrigger(), FogTrigger()
        a.colours.append(x)
        ctx.check(len(b.colours) == 0 and len(b.pers) == 0, "arrays of another fog trigger")
        a, b = Level(), Level()
        a.start_position(1).x = 5
        a.start_position(2).y = 6
        ctx.check(b.start_position(1).x == 0 and a.start_position(1).y == 0 and a.start_position(2).x == 0 and b.start_position(2).y == 0, "start positions")
    elif k == "merge":
        a, b = Level(), Level()
        w = fill(ctx, b, "b", 1)
        b.entities[w["ids"][1]][2].variables["k"] = VariableInt(7)
        a.merge(b)
        want = snap_level(a)
        kept = snap_level(b)
        check_level(ctx, b, kept, "merged level")
        i = w["ids"]
        poke_tile(ctx, b.tiles[w["t"]], "x")
        poke_tile(ctx, b.backdrop.tiles[w["b"]], "y")
        b.props[i[0]][3].rotation = ctx.u("rot", 16)
        b.backdrop.props[i[2]][3].palette = ctx.u("pal", 8)
        e = b.entities[i[1]][2]
        e.rotation, e.layer = ctx.u("erot", 16), ctx.u("elay", 8)
        e.variables["k"].value = 8
        e.variables["z"] = VariableInt(1)
        b.variables["q"] = VariableInt(1)
        b.translate(480.0, 960.0)
        check_level(ctx, a, want, "level merged into")
        for r in a.entities.values():
            ctx.check(r[2].variables["k"].value == 7, "entity variable")
    elif k == "readtwice":
        lev = Level()
        lev.variables, refs = build_map(ctx, MAPS[9], "v")
        w = fill(ctx, lev, "a", 1)
        data = L.level_bytes(lev)
        a, b = L.level_from(data), L.level_from(data)
        want = snap_level(b)
        poke_tile(ctx, a.tiles[w["t"]], "x")
        a.props[w["ids"][0]][3].rotation = ctx.u("rot", 16)
        a.entities[w["ids"][1]][2].variables["z"] = VariableInt(1)
        a.variables["name"].append(b"zz")
        a.tiles.clear()
        a.backdrop.props.clear()
        check_level(ctx, b, want, "second level")
        check_map(ctx, b.variables, refs, "second level's variables")
    elif k == "readreplay":
        data = replay_bytes(make_replay(ctx, 4, 2))
        a, b = DFReader(io.BytesIO(data)).read_replay(), DFReader(io.BytesIO(data)).read_replay()
        want = snap_replay(b)
        a.players[0].intents[IntentStream.JUMP].append(1)
        a.players[0].intents[IntentStream.X].clear()
        a.entities[2].frames.clear()
        a.entities[9].frames[0].x_pos = 99.0
        a.players[1].character = Character.DUSTMAN
        a.players.append(PlayerData())
        ctx.check(snap_replay(b) == want, "second replay")
        ctx.check(a.players[1].intents[IntentStream.JUMP] == b.players[1].intents[IntentStream.JUMP], "players of one replay")
    elif k == "readvars":
        vs, refs = build_map(ctx, MAPS[9] + [["x", ["t", [["y", "i"]]]]], "v")
        data = vars_bytes(vs)
        a, b = [DFReader(io.BytesIO(data)).read_var_file(b"DF_STA") for _ in range(2)]
        a["name"].append(b"zz")
        a["name"][0] = b"q"
        a["x"].value["z"] = VariableInt(1)
        a["x"].value["y"].value = 5
        a["new"] = VariableInt(1)
        check_map(ctx, b, refs, "second map")
    else:
        t = L.tile(ctx, "t", case["s"])
        want = L.snap_tile(t)
        out = list(t.upscale(case["f"]))
        L.check_tile(ctx, t, want, "upscaled tile")
        snaps = [L.snap_tile(n) for _, _, n in out]
        ctx.check(len(out) > 0, "pieces")
        poke_tile(ctx, out[0][2], "x")
        L.check_tile(ctx, t, want, "original after changing a piece")
        for (_, _, n), s in list(zip(out, snaps))[1:]:
            L.check_tile(ctx, n, s, "other piece")
        for i in range(1, len(out)):
            for side in range(4):
                ctx.check(out[i][2].edge_data[side] is not out[0][2].edge_data[side], "shared edge")
