"""C27: remapping and merging keep content and references intact."""

from checks import levels as L
from checks.c23 import arr, make
from checks.c26 import prop
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape, TileSpriteSet
from dustmaker.variable import VariableArray, VariableInt, VariableString, VariableStruct, VariableUInt, VariableVec2

BOUNDS = {
    "quick": "levels with 2..4 entities under arbitrary distinct 30 bit ids, each kind of reference (controller puppet, camera connections, flag entities, key "
    "door, custom score book list) with 1..3 entries pointing at arbitrary ids, present or not; remapping to an arbitrary minimum, merging in either direction with "
    "and without remapping; 12 and 80 entities "
    "of all kinds referring to each other; tiles, props, backdrop content, variables and thumbnail around it",
    "thorough": "as quick with up to 5 references",
}
OUTSIDE = "ids kept in script persist data (documented as not remapped)"
OPTS = {"quick": {"chunk": 6, "case": 120}, "thorough": {"chunk": 6, "case": 300}}
KINDS = ("AI_controller", "camera_node", "level_end", "enemy_key", "custom_score_book")


def cases(tier):
    out = []
    for kind in KINDS:
        for n in (((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)) if kind in ("camera_node", "level_end") else (1,)):
            for op in ("remap", "merge_self", "merge_other", "merge_keep"):
                out.append({"k": "ref", "kind": kind, "n": n, "op": op, "w": 30})
            out.append({"k": "ref", "kind": kind, "n": n, "op": "remap", "w": 30, "bare": 1})
    for c in range(4):
        out.append({"k": "merge", "c": c, "remap": True})
        out.append({"k": "merge", "c": c, "remap": False})
    out.append({"k": "remap"})
    for op in ("remap", "merge_self", "merge_other"):
        for n in (12, 80):
            out.append({"k": "bulk", "n": n, "op": op})
    return out


def referrer(kind, refs):
    if kind == "AI_controller":
        return make(kind, {"puppet_id": VariableUInt(refs[0])})
    if kind == "camera_node":
        return make(kind, {"c_node_ids": arr(VariableUInt, refs)})
    if kind == "level_end":
        return make(kind, {"ent_list": arr(VariableUInt, refs)})
    if kind == "enemy_key":
        return make(kind, {"door": VariableUInt(refs[0])})
    return make(kind, {"level_list_id": VariableInt(refs[0])})


def refs_of(kind, e):
    if kind == "AI_controller":
        return [e.variables["puppet_id"].value]
    if kind == "camera_node":
        return list(e.variables["c_node_ids"])
    if kind == "level_end":
        return list(e.variables["ent_list"])
    if kind == "enemy_key":
        return [e.variables["door"].value]
    return [e.variables["level_list_id"].value]


def build(ctx, lev, case, name):
    """One referrer and two targets; the ids referred to are arbitrary."""
    w = case["w"]
    ids = [ctx.int("%s.id%d" % (name, i), 100, (1 << w) - 1) for i in range(3)]
    for i in range(3):
        for j in range(i):
            ctx.assume(ids[i] != ids[j])
    want = [ctx.int("%s.ref%d" % (name, i), 100, (1 << w) - 1) for i in range(case["n"])]
    r = referrer(case["kind"], list(want))
    es = [r, make("thing_a", {"n": VariableInt(11)}), make("thing_b", {"n": VariableInt(22)})]
    for i, e in enumerate(es):
        lev.add_entity(float(10 * i + 1), 5.0, e, ids[i])
    # ids of props are a space of their own and may coincide with those of entities
    if not case.get("bare"):
        lev.add_prop(3, 1.0, 2.0, prop(), ctx.int("%s.pid" % name, 100, (1 << w) - 1))
    lev.backdrop.add_prop(3, 1.0, 2.0, prop(), ids[1])
    return {"ids": ids, "refs": want, "es": es, "name": name}


def mark(e):
    v = e.variables.get("n")
    return v.value if v is not None else 0


def where(lev, x):
    """id under which the entity with x coordinate x (unique) is stored"""
    for i, r in lev.entities.items():
        if r[0] == x:
            return i, r[2]
    return None, None


def check_refs(ctx, lev, b, case, offset=0.0):
    now = [where(lev, 10.0 * i + 1 + offset) for i in range(3)]
    for i in range(3):
        ctx.check(now[i][0] is not None, "entity kept")
        if now[i][0] is None:
            return
    ctx.check(mark(now[1][1]) == 11 and mark(now[2][1]) == 22, "entity data")
    got = refs_of(case["kind"], now[0][1])
    ctx.check(len(got) == len(b["refs"]), "number of references")
    for n, ref in enumerate(b["refs"][: len(got)]):
        hit = False
        for i in range(3):
            if ref == b["ids"][i]:
                hit = True
                ctx.check(got[n] == now[i][0], "reference follows its entity")
        if not hit and case["op"] in ("remap", "merge_self"):
            for i in lev.entities:
                ctx.check(got[n] != i, "dangling reference points at an unrelated entity")


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "ref":
        a = build(ctx, lev, case, "a")
        op = case["op"]
        if op == "remap":
            lev.remap_ids(ctx.int("lo", 1, (1 << case["w"]) - 1))
            check_refs(ctx, lev, a, case)
            return
        other = Level()
        o = make("thing_c", {})
        oid = ctx.int("oid", 100, (1 << case["w"]) - 1)
        other.add_entity(777.0, 5.0, o, oid)
        if op == "merge_self":
            lev.merge(other)
            check_refs(ctx, lev, a, case)
        elif op == "merge_other":
            other.merge(lev)
            check_refs(ctx, other, a, case)
            check_refs(ctx, lev, a, case)
        else:
            for i in a["ids"] + a["refs"]:
                ctx.assume(i != oid)
            other.merge(lev, remap_ids=False)
            check_refs(ctx, other, a, case)
        return
    if k == "bulk":
        # many entities of every kind referring to each other, one of them under an arbitrary id
        n = case["n"]
        aid = ctx.int("aid", 100, 100000)
        ids = [(i * 7919) % 4001 + 200000 for i in range(n)]
        ids[n // 2] = aid
        links = {}
        for i in range(n):
            kind = KINDS[i % 5]
            cnt = 1 + i % 4 if kind in ("camera_node", "level_end") else 1
            links[i] = [(i * 3 + j * 5 + 1) % n if (i + j) % 3 else n // 2 for j in range(cnt)]
            e = referrer(kind, [ids[t] for t in links[i]])
            lev.add_entity(float(i), 3.0, e, ids[i])
        for i in range(0, n, 3):
            lev.add_prop(2, float(i), 4.0, prop(), ids[i])
        other = Level()
        m = 5
        for i in range(m):
            other.add_entity(100000.0 + i, 3.0, make("thing_c", {}), ids[i] + (i & 1))
        res = lev
        if case["op"] == "remap":
            lev.remap_ids(ctx.int("lo", 100, 300000))
        elif case["op"] == "merge_self":
            lev.merge(other)
        else:
            other.merge(lev)
            res = other
        extra = 0 if case["op"] == "remap" else m
        ctx.check(len(res.entities) == n + extra, "number of entities")
        ctx.check(len(res.props) == (n + 2) // 3, "number of props")
        now = {}
        for idn, r in res.entities.items():
            now[r[0]] = (idn, r[2])
        for i in range(n):
            ctx.check(float(i) in now, "entity kept")
            if float(i) not in now:
                return
        for i in range(n):
            got = refs_of(KINDS[i % 5], now[float(i)][1])
            ctx.check(len(got) == len(links[i]), "number of references")
            for g, t in zip(got, links[i]):
                ctx.check(g == now[float(t)][0], "reference follows its entity")
        return
    if k == "remap":
        ids = [ctx.u("id%d" % i, 31) for i in range(5)]
        ctx.assume(ids[0] != ids[1] and ids[2] != ids[3])
        for i in range(2):
            lev.add_prop(3 + i, 1.0 + i, 2.0 + i, prop(), ids[i])
            lev.add_entity(5.0 + i, 6.0 + i, Entity(), ids[2 + i])
        lev.backdrop.add_prop(9, 7.0, 8.0, prop(), ids[4])
        t = L.tile(ctx, "t", 0, full=False)
        snap = L.snap_tile(t)
        lev.tiles[(3, 4, 5)] = t
        lev.remap_ids(ctx.int("lo", 100, 1 << 30))
        ps = sorted([r[0] for r in lev.props.values()])
        ctx.check(ps == [3, 4], "props kept")
        for r in lev.props.values():
            ctx.check(r[1] == r[0] - 2 and r[2] == r[0] - 1, "prop places")
        ctx.check(sorted([r[0] for r in lev.entities.values()]) == [5.0, 6.0], "entities kept")
        bs = list(lev.backdrop.props.values())
        ctx.check(len(bs) == 1 and bs[0][0] == 9 and bs[0][1] == 7.0 and bs[0][2] == 8.0, "backdrop props kept")
        ctx.check(len(lev.tiles) == 1 and (3, 4, 5) in lev.tiles, "tiles kept")
        L.check_tile(ctx, lev.tiles[(3, 4, 5)], snap, "tile")
        return
    # merge: content
    c, remap = case["c"], case["remap"]
    other = Level()
    t1, t2, t3 = L.tile(ctx, "t1", 0, full=False), L.tile(ctx, "t2", 17, full=False), L.tile(ctx, "t3", 3, full=False)
    s1, s2, s3 = L.snap_tile(t1), L.snap_tile(t2), L.snap_tile(t3)
    lv, ot = (lev, other) if c % 2 == 0 else (lev.backdrop, other.backdrop)
    x, y = ctx.s("x", 12), ctx.s("y", 12)
    u, v = ctx.s("u", 12), ctx.s("v", 12)
    lv.tiles[(7, x, y)] = t1
    ot.tiles[(7, u, v)] = t2
    ot.tiles[(8, 1, 1)] = t3
    p, q = L.prop(ctx, "p"), L.prop(ctx, "q")
    sp, sq = L.snap_prop(p), L.snap_prop(q)
    ip, iq = ctx.u("ip", 16), ctx.u("iq", 16)
    if not remap:
        ctx.assume(ip != iq)
    lv.add_prop(3, 1.5, 2.5, p, ip)
    ot.add_prop(4, 3.5, 4.5, q, iq)
    if c % 2 == 0:
        e, f = L.entity(ctx, "e", None, Entity, "aa"), L.entity(ctx, "f", None, Entity, "bb")
        se, sf = L.snap_entity(e), L.snap_entity(f)
        ie, jf = ctx.u("ie", 16), ctx.u("if", 16)
        if not remap:
            ctx.assume(ie != jf)
        lev.add_entity(9.0, 9.5, e, ie)
        other.add_entity(8.0, 8.5, f, jf)
        nv = [ctx.s("nv%d" % i, 32) for i in range(4)]
        f.variables["arr"] = arr(VariableInt, [nv[0], nv[1]])
        f.variables["st"] = VariableStruct({"m": VariableInt(nv[2]), "l": arr(VariableInt, [nv[3]])})
        f.variables["vec"] = VariableVec2((1.5, 2.5))
    val = ctx.s("val", 32)
    lev.variables["k"] = VariableInt(val)
    other.variables["k"] = VariableInt(5)
    other.variables["z"] = VariableInt(6)
    lev.sshot, other.sshot = b"one", b"two"
    lev.merge(other, remap_ids=remap) if c < 2 else (lev.merge(other) if remap else lev.merge(other, False))
    ctx.check(lev.variables["k"].value == val and lev.sshot == b"one", "own metadata kept")
    same = x == u and y == v
    ctx.check(len(lv.tiles) == (2 if same else 3), "number of tiles")
    for key, snap, skip in (((7, x, y), s1, same), ((7, u, v), s2, False), ((8, 1, 1), s3, False)):
        if not skip:
            g = lv.tiles.get(key)
            ctx.check(g is not None, "tile present")
            if g is not None:
                L.check_tile(ctx, g, snap, "merged tile")
    ctx.check(len(lv.props) == 2 and len(ot.props) == 1, "number of props")
    for layer, wx, wy, snap in ((3, 1.5, 2.5, sp), (4, 3.5, 4.5, sq)):
        hits = [r for r in lv.props.values() if r[0] == layer]
        ctx.check(len(hits) == 1 and hits[0][1] == wx and hits[0][2] == wy, "prop present")
        if len(hits) == 1:
            L.check_prop(ctx, hits[0][3], snap, "merged prop")
    if c % 2 == 0:
        ctx.check(len(lev.entities) == 2 and len(other.entities) == 1, "number of entities")
        for wx, wy, snap in ((9.0, 9.5, se), (8.0, 8.5, sf)):
            hits = [r for r in lev.entities.values() if r[0] == wx]
            ctx.check(len(hits) == 1 and hits[0][1] == wy, "entity present")
            if len(hits) == 1:
                L.check_entity(ctx, hits[0][2], snap, "merged entity")
    # the other level is left alone and shares nothing with the result
    ctx.check(len(ot.tiles) == 2 and len(other.variables) == len(Level().variables) + 2, "other level kept")
    g = lv.tiles.get((8, 1, 1))
    if g is not None:
        g.shape = TileShape(0)
        for i in range(4):
            g.edge_data[i].solid = not g.edge_data[i].solid
            g.edge_data[i].angles = (1, 2)
            g.edge_data[i].caps = (True, False)
            g.edge_data[i].filth_sprite_set = TileSpriteSet(0)
        L.check_tile(ctx, ot.tiles[(8, 1, 1)], s3, "other level's tile")
    for r in lv.props.values():
        r[3].rotation = 12345
        r[3].palette = 99
    L.check_prop(ctx, list(ot.props.values())[0][3], sq, "other level's prop")
    if c % 2 == 0:
        for r in lev.entities.values():
            r[2].layer = 1
            r[2].variables["w"] = VariableInt(3)
            if "arr" in r[2].variables:
                vs = r[2].variables
                ctx.check(list(vs["arr"]) == [nv[0], nv[1]], "merged array")
                ctx.check(vs["st"].value["m"].value == nv[2] and list(vs["st"].value["l"]) == [nv[3]], "merged struct")
                vs["arr"].append(7)
                vs["arr"][0] = 8
                vs["st"].value["l"].append(9)
                vs["st"].value["m"].value = nv[2] + 1
                vs["st"].value["n"] = VariableInt(3)
                vs["vec"].value = (0.0, 0.0)
        oe = list(other.entities.values())[0][2]
        L.check_entity(ctx, oe, sf, "other level's entity")
        ctx.check("w" not in oe.variables, "other level's entity variables")
        vs = oe.variables
        ctx.check(list(vs["arr"]) == [nv[0], nv[1]], "other level's array")
        ctx.check(vs["st"].value["m"].value == nv[2] and list(vs["st"].value["l"]) == [nv[3]], "other level's struct")
        ctx.check("n" not in vs["st"].value and vs["vec"].value == (1.5, 2.5), "other level's variables")
