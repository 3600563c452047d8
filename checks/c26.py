"""C26: ids handed out are never in use."""

from checks import levels as L, refenc
from dustmaker.entity import Entity
from dustmaker.exceptions import LevelException
from dustmaker.level import Level
from dustmaker.prop import Prop

BOUNDS = {
    "quick": "levels with 0..3 props, 0..3 entities and 0..3 backdrop props (4 items at most) under arbitrary ids (31 bit up to two items, 12 bit beyond), built by explicit adds, reading from a file, merging "
    "(with and without remapping), remapping to an arbitrary minimum or recomputing the maximum (reset or not); files with any recorded next id; then 1..3 automatic adds in any place; sequences of two such steps",
    "thorough": "as quick with up to 5 items",
}
OUTSIDE = "ids set by writing to the dictionaries directly without recomputing the maximum"
OPTS = {"quick": {"case": 120, "chunk": 4}, "thorough": {"case": 300}}


def cases(tier):
    out = []
    top = 4 if tier == "quick" else 5
    shapes = [(p, e, b) for p in range(top) for e in range(top) for b in range(top) if p + e + b <= (4 if tier == "quick" else 5)]
    for sh in shapes:
        for how in ("add", "max", "max_keep", "max_direct", "max_keep_direct", "remap"):
            out.append({"k": "own", "sh": list(sh), "how": how})
    for sh in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 0)):
        out.append({"k": "own", "sh": list(sh), "how": "file"})
    for a in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
        for b in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
            for remap in (True, False):
                out.append({"k": "merge", "a": list(a), "b": list(b), "remap": remap})
    for x in ("max", "max_keep", "remap", "add"):
        for y in ("max", "max_keep", "remap"):
            out.append({"k": "own", "sh": [1, 1, 1], "how": x, "then": y})
    for kind in ("prop", "entity", "bprop"):
        out.append({"k": "dup", "kind": kind})
    out.append({"k": "fresh"})
    for what in ("none", "prop", "ent", "back", "both"):
        out.append({"k": "uid", "what": what})
    return out


def prop():
    return Prop(0, 0, False, False, 1.0, 1, 1, 1, 0)


def fill(ctx, lev, sh, name, direct=False):
    """Adds items under arbitrary ids; all ids of one kind distinct."""
    groups = [(lev, "props", sh[0]), (lev, "entities", sh[1]), (lev.backdrop, "props", sh[2])]
    n = 0
    for lv, kind, count in groups:
        ids = []
        for _ in range(count):
            i = ctx.u("%s.id%d" % (name, n), 31 if sum(sh) < 3 else 12)
            n += 1
            for o in ids:
                ctx.assume(o != i)
            ids.append(i)
            if direct:
                if kind == "props":
                    lv.props[i] = (2, 1.0, 1.0, prop())
                else:
                    lv.entities[i] = (1.0, 1.0, Entity())
            elif kind == "props":
                lv.add_prop(2, 1.0, 1.0, prop(), i)
            else:
                lv.add_entity(1.0, 1.0, Entity(), i)


def all_ids(lev):
    return list(lev.props) + list(lev.entities) + list(lev.backdrop.props)


def auto(ctx, lev, times=2):
    """Automatic adds; each id must be unused so far."""
    for n in range(times):
        used = all_ids(lev)
        i = (lambda: lev.add_prop(1, 2.0, 3.0, prop()), lambda: lev.add_entity(2.0, 3.0, Entity()),
             lambda: lev.backdrop.add_prop(1, 2.0, 3.0, prop()))[(n + len(used)) % 3]()
        for u in used:
            ctx.check(u != i, "automatic id already in use")
        ctx.check(i >= 100, "automatic id is reserved")
        ctx.check(len(all_ids(lev)) == len(used) + 1, "one item added")


def step(ctx, lev, how, tag=""):
    before = all_ids(lev)
    if how == "max_keep_direct":
        ids = all_ids(lev)
        m = lev.calculate_max_id(False)
        ctx.check(m >= 100, "maximum is at least 100")
        for i in ids:
            ctx.check(m >= i, "maximum covers all ids")
        auto(ctx, lev, 3)
    elif how in ("max", "max_direct", "max_keep"):
        hint = lev.add_prop(0, 0.0, 0.0, prop()) if how == "max_keep" else None
        if hint is not None:
            del lev.props[hint]
        m = lev.calculate_max_id(how != "max_keep")
        ctx.check(m >= 100, "maximum is at least 100")
        big = 100
        for i in before:
            ctx.check(m >= i, "maximum covers all ids")
            big = i if i > big else big
        if how != "max_keep":
            ctx.check(m == big, "maximum is exact")
        else:
            ctx.check(m >= hint, "keeps allocated ids when not resetting")
        i = lev.add_entity(0.0, 0.0, Entity())
        ctx.check(i > m, "allocation continues above the maximum")
    elif how == "remap":
        lo = ctx.int("lo" + tag, 100, 1 << 30)
        counts = (len(lev.props), len(lev.entities), len(lev.backdrop.props))
        lev.remap_ids(lo)
        ids = all_ids(lev)
        ctx.check(counts == (len(lev.props), len(lev.entities), len(lev.backdrop.props)), "nothing lost in remapping")
        for n, i in enumerate(ids):
            ctx.check(i >= lo, "remapped id is at least the minimum")
            for j in ids[:n]:
                ctx.check(i != j, "remapped ids distinct")


def run(ctx, case):
    k = case["k"]
    lev = Level()
    if k == "fresh":
        seen = []
        for i in range(6):
            v = (lev.add_prop(1, 0.0, 0.0, prop()) if i % 3 == 0 else lev.add_entity(0.0, 0.0, Entity()) if i % 3 == 1
                 else lev.backdrop.add_prop(1, 0.0, 0.0, prop()))
            ctx.check(v >= 100 and v not in seen, "fresh ids start at 100 and never repeat")
            seen.append(v)
        d = ctx.u("id", 31)
        lev.add_prop(1, 0.0, 0.0, prop(), d) if d not in seen else None
        auto(ctx, lev, 1)
        return
    if k == "uid":
        # files of any origin: the recorded next id need not fit the content
        what = case["what"]
        uid = ctx.u("uid", 31)
        i, j = ctx.u("i", 31), ctx.u("j", 31)
        seg = {"version": 8, "x": 0, "y": 0}
        if what in ("prop", "back", "both"):
            seg["props"] = [(i, 3, 1, 1, 32, L.snap_prop(prop()))]
        if what in ("ent", "both"):
            seg["ents"] = [(j, "thing", None, 128, 128, L.snap_entity(Entity()), [])]
        reg = {"x": 0, "y": 0, "segs": [] if what == "back" else [seg]}
        if what == "back":
            reg["back"] = seg
        data = refenc.level(regions=[] if what == "none" else [reg], uid=uid)
        lev = L.level_from(data)
        ctx.check(len(all_ids(lev)) == {"none": 0, "both": 2}.get(what, 1), "items read")
        auto(ctx, lev, 3)
        return
    if k == "dup":
        i = ctx.u("id", 31)
        x = ctx.s("x", 16)
        lv = lev.backdrop if case["kind"] == "bprop" else lev
        p, e = prop(), Entity()
        add = ((lambda n, v: lv.add_entity(v, 2.0, e, n)) if case["kind"] == "entity"
               else (lambda n, v: lv.add_prop(4, v, 2.0, p, n)))
        ctx.check(add(i, x) == i, "explicit id is used")
        j = ctx.u("id2", 31)
        try:
            add(j, 77)
            ok = True
        except LevelException:
            ok = False
        ctx.check(ok == (i != j), "a used id is refused, an unused one accepted")
        store = lv.entities if case["kind"] == "entity" else lv.props
        ctx.check(len(store) == (2 if i != j else 1), "number of items")
        got = store.get(i)
        ctx.check(got is not None, "first item present")
        if got is not None:
            ctx.check(got[0 if case["kind"] == "entity" else 1] == x, "first item untouched")
        auto(ctx, lev, 2)
        return
    if k == "own":
        fill(ctx, lev, case["sh"], "a", case["how"].endswith("direct"))
        if case["how"] == "file":
            lev = L.round_trip(lev)
        elif case["how"] != "add":
            step(ctx, lev, case["how"])
        if "then" in case:
            auto(ctx, lev, 1)
            step(ctx, lev, case["then"], "2")
        auto(ctx, lev, 3)
        return
    other = Level()
    fill(ctx, lev, case["a"], "a")
    fill(ctx, other, case["b"], "b")
    na, nb = all_ids(lev), all_ids(other)
    if not case["remap"]:
        for i in na:
            for j in nb:
                ctx.assume(i != j)
    lev.merge(other, remap_ids=case["remap"])
    ctx.check(len(all_ids(lev)) == len(na) + len(nb), "nothing lost in merging")
    ids = all_ids(lev)
    for i in nb:
        ctx.check(any([i == v for v in ids]), "merged items keep their ids")
    if not case["remap"]:
        for i in na:
            ctx.check(any([i == v for v in ids]), "own items keep their ids")
    auto(ctx, lev, 3)
