"""C12: entities survive writing and reading a level."""

from checks import levels as L
from checks.vars import build_map, check_map
from dustmaker.entity import Entity
from dustmaker.level import Level

BOUNDS = {
    "quick": "1 entity with every attribute arbitrary: any position with |x|,|y| < 2^28 on the 1/128 px grid, any id "
    "0..2^31-1, any type name of 0..8 arbitrary characters, every registered type, names one arbitrary character away from a registered one, names needing the extended name "
    "table up to 63 characters, attached variables; 2..3 entities mixing plain and extended names in one or several "
    "segments; 300 entities in one segment",
    "thorough": "as quick, type names up to 16 arbitrary characters, 4 entities with every plain/extended mix",
}
OUTSIDE = "more entities with arbitrary positions than stated; zlib replaced by an identity codec"
LIM = 1 << 28
OPTS = {"quick": {"chunk": 8}, "thorough": {"chunk": 8}}


def known():
    return [n for n in Entity._known_types]


def cases(tier):
    q = tier == "quick"
    out = [{"k": "pos", "t": t} for t in ("check_point", "z_string_list", "zork")]
    out += [{"k": "name", "n": n} for n in (range(0, 9) if q else range(0, 17))]
    out += [{"k": "zname", "n": n} for n in ((0, 1, 5, 61) if q else (0, 1, 2, 5, 9, 30, 61))]
    names = known()
    step = (len(names) + 7) // 8
    out += [{"k": "known", "i": i, "j": min(i + step, len(names))} for i in range(0, len(names), step)]
    sample = names[::4] if q else names
    out += [{"k": "near", "how": how, "t": t} for t in sample for how in ("before", "after", "inside")]
    for mix in (["p", "z"], ["z", "p"], ["e", "p", "z"], ["z", "e", "z"], ["e", "e"]):
        out.append({"k": "mix", "mix": mix})
    if not q:
        for a in "pze":
            for b in "pze":
                for c in "pze":
                    out.append({"k": "mix", "mix": [a, b, c, "z"]})
    out += [{"k": "two", "rel": r, "t": t} for r in ("seg", "far") for t in (["p", "z"], ["z", "z"])]
    out.append({"k": "many"})
    return out


def check_one(ctx, got, x, y, want, refs, msg):
    ctx.check(got is not None, msg + ": entity lost its id")
    if got is None:
        return
    ctx.check(got[0] == x, msg + ": x position")
    ctx.check(got[1] == y, msg + ": y position")
    L.check_entity(ctx, got[2], want, msg)
    check_map(ctx, got[2].variables, refs, msg + " variables")


MAPS = {
    "none": [],
    "some": [[2, "i"], [1, "s2"], ["list", ["a", "v", ["v"]]]],
    "deep": [["ab", ["t", [[1, "u"]]]], ["trigger_area", ["a", "v", ["v", "v"]]], ["fl", "f"], ["b", "b"]],
}
NAMES = {"p": ("plain", "torch_x"), "z": ("z_abc", "z_string_list"), "e": ("entity", "entity")}


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "pos":
        nx = ctx.int("x", -LIM * 128 + 1, LIM * 128 - 1)
        ny = ctx.int("y", -LIM * 128 + 1, LIM * 128 - 1)
        vals, refs = build_map(ctx, MAPS["deep"], "v")
        cls = Entity._known_types.get(case["t"], Entity)
        e = L.entity(ctx, "e", vals, cls, case["t"])
        want = L.snap_entity(e)
        idn = ctx.u("id", 31)
        ctx.check(lev.add_entity(nx / 128, ny / 128, e, idn) == idn, "id returned")
        got = L.round_trip(lev)
        ctx.check(len(got.entities) == 1 and len(got.props) == 0 and len(got.tiles) == 0, "content count")
        check_one(ctx, got.entities.get(idn), nx / 128, ny / 128, want, refs, "entity")
        ctx.check(type(got.entities[idn][2]) is cls, "entity class")
        return
    if k in ("name", "zname"):
        text = ctx.text("n", case["n"], 0x30, 0x7B)
        for ch in text:
            v = ord(ch)
            ctx.assume(v <= 0x39 or (v >= 0x41 and v <= 0x5A) or v == 0x5F or v >= 0x61)
        if k == "zname":
            text = "z_" + text
        vals, refs = build_map(ctx, MAPS["some"], "v")
        e = L.entity(ctx, "e", vals, Entity, text)
        want = L.snap_entity(e)
        lev.add_entity(100.5, -3.25, e, 123)
        got = L.round_trip(lev)
        ctx.check(len(got.entities) == 1, "entity count")
        check_one(ctx, got.entities.get(123), 100.5, -3.25, want, refs, "entity")
        return
    if k == "near":
        # type names one character away from a registered one are other types
        t = case["t"]
        ch = ctx.text("c", 1, 0x30, 0x7B)
        v = ord(ch)
        ctx.assume(v <= 0x39 or (v >= 0x41 and v <= 0x5A) or v == 0x5F or v >= 0x61)
        i = len(t) // 2
        text = ch + t if case["how"] == "before" else t + ch if case["how"] == "after" else t[:i] + ch + t[i + 1:]
        cls = Entity
        for name in known():
            if name == text:
                cls = Entity._known_types[name]
        e = L.entity(ctx, "e", None, Entity, text)
        want = L.snap_entity(e)
        lev.add_entity(1.0, 2.0, e, 5)
        got = L.round_trip(lev)
        check_one(ctx, got.entities.get(5), 1.0, 2.0, want, [], "entity")
        ctx.check(type(got.entities[5][2]) is cls, "entity class")
        return
    if k == "known":
        names = known()
        todo = names[case["i"]:case["j"]]
        recs = []
        for i, name in enumerate(todo):
            cls = Entity._known_types[name]
            e = L.entity(ctx, "e%d" % i, None, cls)
            ctx.check(e.etype == name, "type name of a registered class")
            recs.append((200 + i, cls, L.snap_entity(e)))
            lev.add_entity(48.0 * i, 0.0, e, 200 + i)
        got = L.round_trip(lev)
        ctx.check(len(got.entities) == len(recs), "entity count")
        for i, (idn, cls, want) in enumerate(recs):
            check_one(ctx, got.entities.get(idn), 48.0 * i, 0.0, want, [], "entity")
            ctx.check(type(got.entities[idn][2]) is cls, "entity class")
        return
    recs = []
    if k == "many":
        for i in range(300):
            e = L.entity(ctx, "e%d" % i) if i in (0, 150, 299) else Entity(None, i * 5, i % 20, i % 2 == 0, i % 3 == 0, i % 5 != 0)
            e.etype = ("plain", "z_x", "entity", "zz")[i % 4]
            recs.append((1000 + i, float(i), i / 2, L.snap_entity(e), []))
            lev.add_entity(float(i), i / 2, e, 1000 + i)
    elif k == "mix":
        for i, t in enumerate(case["mix"]):
            name = NAMES[t][i % 2]
            vals, refs = build_map(ctx, MAPS["some"] if i % 2 == 0 else [], "v%d" % i)
            e = L.entity(ctx, "e%d" % i, vals, Entity, name)
            idn = ctx.int("id%d" % i, i * 1000, i * 1000 + 999)
            nx = ctx.int("x%d" % i, 0, 127)
            recs.append((idn, nx / 128, 5.5, L.snap_entity(e), refs))
            lev.add_entity(nx / 128, 5.5, e, idn)
    else:
        pts = []
        for i in range(2):
            pts.append((ctx.int("x%d" % i, -LIM, LIM), ctx.int("y%d" % i, -LIM, LIM), ctx.u("id%d" % i, 31)))
        ctx.assume(pts[0][2] != pts[1][2])
        near = 0
        if case["rel"] == "seg":
            ctx.assume(pts[0][0] // 768 == pts[1][0] // 768)
            ctx.assume(pts[0][1] // 768 == pts[1][1] // 768)
        for i, t in enumerate(case["t"]):
            e = L.entity(ctx, "e%d" % i, None, Entity, NAMES[t][i])
            recs.append((pts[i][2], pts[i][0], pts[i][1], L.snap_entity(e), []))
            lev.add_entity(pts[i][0] / 1, pts[i][1] / 1, e, pts[i][2])
    got = L.round_trip(lev)
    ctx.check(len(got.entities) == len(recs), "entity count")
    for i, (idn, x, y, want, refs) in enumerate(recs):
        check_one(ctx, got.entities.get(idn), x, y, want, refs, "entity %d" % i)
