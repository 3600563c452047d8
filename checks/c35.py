"""C35: converting a vanilla save keeps every score and counts the keys."""

import itertools

from checks import cli, ref
from checks.common import finish, reader, writer
from checks.vars import build, build_map, check_same
from dustmaker.cmd.save_convert import migrate_stats
from dustmaker.variable import VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableStruct

BOUNDS = {
    "quick": "0..4 scores with arbitrary results; one score for each of the 64 levels of the game and for other names; pairs and triples of names in "
    "any order; several scores of the same level; every score book present or absent with arbitrary content, other variables arbitrary; red key count arbitrary or absent; through the "
    "conversion function and through files",
    "thorough": "as quick with four scores of arbitrary names out of twelve",
}
OUTSIDE = "the entry 'virtualbookk' (its spelling cannot be told from the code)"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 900}}

# the four areas of the game, doors in groups of four: free, wood, silver and gold key
LEVELS = {
    "forest": "downhill shadedgrove dahlia fields momentum fireflyforest tunnels momentum2 suntemple ascent summit grasscave den autumnforest garden hyperdifficult",
    "mansion": "atrium secretpassage alcoves mezzanine cave cliffsidecaves library courtyard precarious treasureroom arena ramparts moontemple observatory parapets brimstone",
    "city": "vacantlot sprawl development abandoned park boxes chemworld factory tunnel basement scaffold cityrun clocktower concretetemple alley hideout",
    "lab": "control ferrofluid titan satellite vat venom security mary wiringfixed containment orb pod mary2 coretemple abyss dome",
}
DOOR = {name: i // 4 for area in LEVELS.values() for i, name in enumerate(area.split())}
NAMES = sorted(DOOR)
OTHER = ["custom-1234", "", "Downhill", "downhill2", "main_nexus_dx"]
BOOKS = ("citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook")
FEW = ["downhill", "abyss", "cave", "vat", "scaffold", "alley", "dome", "custom-1234", "fields", "summit", "library", "orb"]


def cases(tier):
    out = [{"k": "one", "names": NAMES[i:i + 8]} for i in range(0, 64, 8)]
    out.append({"k": "one", "names": OTHER})
    out.append({"k": "none", "score": 0})
    out.append({"k": "none", "score": 1})
    for n in (2, 3):
        out.append({"k": "many", "names": FEW[:6] if n == 3 else FEW, "n": n})
    if tier != "quick":
        out.append({"k": "many", "names": FEW, "n": 4})
    for names in (["vat", "vat"], ["downhill", "abyss", "downhill"], ["cave", "cave", "x", "cave"], ["orb", "alley", "orb", "alley"]):
        out.append({"k": "double", "names": names})
    out.append({"k": "all"})
    for i in range(len(BOOKS)):
        out.append({"k": "books", "i": i})
    out.append({"k": "books", "i": None})
    for n in (0, 1, 3):
        out.append({"k": "file", "n": n})
    return out


def score(ctx, tag, name):
    vals = {"combo": (ref.INT, ctx.s(tag + ".combo", 32)), "overall": (ref.INT, ctx.s(tag + ".overall", 32))}
    for f in ("time", "thorough", "best_time"):
        vals[f] = (ref.FLOAT, ctx.int(tag + "." + f, -(1 << 45), 1 << 45))
    d = {"file_name": VariableString(name.encode()), "extra": VariableInt(ctx.s(tag + ".extra", 32))}
    for k, (t, v) in vals.items():
        d[k] = VariableInt(v) if t == ref.INT else VariableFloat(v / (1 << 31))
    return VariableStruct(d), (name, vals)


def stats_of(ctx, names, red=True):
    scores, want = [], []
    for i, n in enumerate(names):
        s, w = score(ctx, "s%d" % i, n)
        scores.append(s)
        want.append(w)
    stats = {"score": VariableArray(VariableStruct, scores)}
    r = 0
    if red:
        r = ctx.int("red", 0, 1 << 20)
        stats["red_used"] = VariableInt(r)
    return stats, want, r


def one_of(ctx, new, key, cls, msg):
    v = new.get(key)
    ok = type(v) is VariableArray and v.element_type is cls and len(v.value[1]) == 1 and type(v.value[1][0]) is cls
    ctx.check(ok, key + ": one " + msg)
    return v.value[1][0].value if ok else None


def check_new(ctx, new, want, red, books=None):
    known = sorted([w for w in want if w[0] in DOOR], key=lambda w: w[0])
    used = [len([w for w in known if DOOR[w[0]] == d]) for d in (1, 2, 3)]
    ctx.check(one_of(ctx, new, "k_wood_used", VariableInt, "count") == used[0], "wood keys used")
    ctx.check(one_of(ctx, new, "k_silver_used", VariableInt, "count") == used[1], "silver keys used")
    ctx.check(one_of(ctx, new, "k_gold_used", VariableInt, "count") == used[2], "gold keys used")
    ctx.check(one_of(ctx, new, "k_red_used", VariableInt, "count") == red, "red keys used")
    ctx.check(one_of(ctx, new, "k_root", VariableString, "name") == b"", "root")
    ctx.check(one_of(ctx, new, "k_ngplus", VariableBool, "flag") == False, "new game plus")
    got = new.get("k_score")
    ctx.check(type(got) is VariableArray and got.element_type is VariableStruct, "scores")
    ctx.check(len(got.value[1]) == len(known), "number of scores")
    i = 0
    while i < len(known):
        # scores of the same level may be in any order
        j = i
        while j < len(known) and known[j][0] == known[i][0]:
            j += 1
        if j - i > 1:
            group = got.value[1][i:j]
            ok = False
            for perm in itertools.permutations(known[i:j]):
                same = True
                for g, (_, vals) in zip(group, perm):
                    for f, (t, v) in vals.items():
                        same = same & (g.value[f].value == (v if t == ref.INT else v / (1 << 31)))
                ok = ok | same
            ctx.check(ok, "every score of a level is kept")
        i = j
    double = len(set(w[0] for w in known)) < len(known)
    for g, (name, vals) in zip(got.value[1], known):
        d = g.value
        ctx.check(len(d) == 8, "fields of a score")
        ctx.check(d["file_name"].value == name.encode(), "scores sorted by name")
        ctx.check(type(d["rind"]) is VariableInt and d["rind"].value == 0, "root index")
        # what beating the level earns: wood (4), silver, gold, red
        ctx.check(d["key_type"].value == (4, 1, 2, 3)[DOOR[name]], "key type of " + name)
        for f, (t, v) in vals.items():
            if double:
                ctx.check(type(d[f]) is (VariableInt if t == ref.INT else VariableFloat), f)
            elif t == ref.INT:
                ctx.check(type(d[f]) is VariableInt and d[f].value == v, f)
            else:
                ctx.check(type(d[f]) is VariableFloat and d[f].value == v / (1 << 31), f)
    names = {"k_score", "k_root", "k_wood_used", "k_silver_used", "k_gold_used", "k_red_used", "k_ngplus"}
    names.update(books or ())
    ctx.check(set(new) == names, "variables of the new save")


def run(ctx, case):
    k = case["k"]
    if k == "one":
        for i, name in enumerate(case["names"]):
            s, w = score(ctx, "s%d" % i, name)
            check_new(ctx, migrate_stats({"score": VariableArray(VariableStruct, [s])}), [w], 0)
        return
    if k == "none":
        stats = {"score": VariableArray(VariableStruct, [])} if case["score"] else {}
        check_new(ctx, migrate_stats(stats), [], 0)
        return
    if k == "many":
        names = [ctx.choice("n%d" % i, case["names"]) for i in range(case["n"])]
        for i in range(case["n"]):
            for j in range(i):
                ctx.assume(names[i] != names[j])
        stats, want, red = stats_of(ctx, names)
        check_new(ctx, migrate_stats(stats), want, red)
        return
    if k == "double":
        stats, want, red = stats_of(ctx, case["names"])
        check_new(ctx, migrate_stats(stats), want, red)
        return
    if k == "all":
        stats, want, red = stats_of(ctx, NAMES[::-1])
        check_new(ctx, migrate_stats(stats), want, red)
        return
    if k == "books":
        stats, want, red = stats_of(ctx, ["downhill", "other"], red=False)
        names = [b for i, b in enumerate(BOOKS) if i != case["i"]]
        ref_books = {}
        for i, b in enumerate(names):
            v, w = build(ctx, [["a", "s", ["s1", "s0"]], ["t", [["k", "i"]]], "i", ["a", "b", []]][i % 4], b)
            stats[b] = v
            ref_books[b] = w
        for other in ("book", "citybook2", "k_score", "levels", "xp"):
            stats[other] = VariableInt(ctx.s("o." + other, 32))
        new = migrate_stats(stats)
        check_new(ctx, new, want, 0, names)
        for b, w in ref_books.items():
            if b in new:
                check_same(ctx, new[b], w, b)
        return
    stats, want, red = stats_of(ctx, ["vat", "cave", "zzz"][:case["n"]])
    v, w = build(ctx, ["a", "s", ["s2"]], "book")
    stats["citybook"] = v
    wr = writer()
    wr.write_var_file(b"DF_STA", stats)
    data = finish(wr)
    ctx.put_file("stats0", data)
    rc = cli.run_tool(ctx, "saveconvert", [ctx.path("stats0"), ctx.path("stats1")])
    ctx.check(rc == 0, "exit code")
    ctx.check(ctx.get_file("stats0") == data, "the old save is left alone")
    new = reader(ctx.get_file("stats1")).read_var_file(b"DF_STA")
    check_new(ctx, new, want, red, ["citybook"])
    check_same(ctx, new["citybook"], w, "citybook")
