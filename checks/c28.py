"""C28: variables and tiles compare by content and hash accordingly."""

import copy
import itertools

from checks import levels as L, ref, vars as VS
from dustmaker.tile import Tile, TileShape
from dustmaker.variable import (
    VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableStruct, VariableUInt, VariableVec2,
)

BOUNDS = {
    "quick": "pairs of variables of equal and of different type with arbitrary values: scalars (full ranges), strings of 0..6 bytes, arrays and "
    "structs of 0..3 members nested up to two levels, structs of 4 members in any order, arrays of 40; signed zeros; pairs of tiles with all attributes "
    "arbitrary, and with one arbitrary attribute of one edge changed",
    "thorough": "as quick",
}
OUTSIDE = "the hash values themselves (only that equal objects hash alike); NaN"
OPTS = {"quick": {}, "thorough": {}}
SAME = ["b", "i", "u", "f", "v", "s0", "s1", "s3", ["a", "i", []], ["a", "i", ["i"]], ["a", "s", ["s2", "s0"]],
        ["a", "v", ["v"]], ["a", "a", [["a", "u", ["u"]]]], ["a", "t", [["t", [["k", "i"]]]]], ["t", []],
        ["t", [["k", "i"]]], ["t", [["k", "i"], ["m", "s1"]]], ["t", [["k", "f"], ["q", ["t", [["z", "b"]]]]]],
        ["t", [["k", ["a", "i", ["i", "i"]]]]]]
MORE = ["s6", ["a", "i", ["i", "i", "i"]], ["a", "f", ["f", "f"]], ["t", [["a", "i"], ["b", "u"], ["c", "v"]]],
        ["a", "a", [["a", "a", [["a", "b", ["b"]]]]]]]


def cases(tier):
    out = [{"k": "same", "s": s} for s in SAME + MORE]
    mixed = ["b", "i", "u", "f", "v", "s1", ["a", "i", []], ["a", "u", []], ["a", "i", ["i"]], ["a", "u", ["u"]],
             ["a", "b", ["b"]], ["t", []], ["t", [["k", "i"]]], ["t", [["k", "u"]]], ["t", [["n", "i"]]],
             ["t", [["k", "i"], ["n", "i"]]]]
    for i, a in enumerate(mixed):
        for b in mixed[:i]:
            out.append({"k": "diff", "a": a, "b": b})
    out += [{"k": "corner"}, {"k": "order"}, {"k": "order4"}, {"k": "long"}, {"k": "foreign"}, {"k": "tiles"}, {"k": "copy"}]
    for side in range(4):
        out.append({"k": "edge", "side": side})
    return out


def same_ref(a, b):
    """Are two references equal in type and value?"""
    if a[0] != b[0]:
        return False
    if a[0] == ref.ARRAY:
        if a[1][0] != b[1][0] or len(a[1][1]) != len(b[1][1]):
            return False
        r = True
        for x, y in zip(a[1][1], b[1][1]):
            r = r and same_ref(x, y)
        return r
    if a[0] == ref.STRUCT:
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return False
        r = True
        for x, y in zip(a[1], b[1]):
            r = r and same_ref(x[1], y[1])
        return r
    return a[1] == b[1]


def relate(ctx, a, b, want, msg):
    eq = a == b
    ctx.check(eq == want, msg + ": equality")
    ctx.check((a != b) != want, msg + ": inequality")
    ctx.check((b == a) == want, msg + ": symmetry")
    ctx.check(a == a and b == b, msg + ": reflexivity")
    ha, hb = hash(a), hash(b)
    ctx.check(ha == hash(a), msg + ": stable hash")
    if want:
        ctx.check(ha == hb, msg + ": equal objects hash alike")


def tile_key(s):
    return (s["shape"], s["tile_flags"], s["sprite_set"], s["sprite_tile"], s["sprite_palette"]) + tuple(s["edges"])


def run(ctx, case):
    k = case["k"]
    if k == "same":
        a, ra = VS.build(ctx, case["s"], "a")
        b, rb = VS.build(ctx, case["s"], "b")
        relate(ctx, a, b, same_ref(ra, rb), "same type")
        c = copy.deepcopy(a)
        relate(ctx, a, c, True, "copy")
    elif k == "diff":
        a, _ = VS.build(ctx, case["a"], "a")
        b, _ = VS.build(ctx, case["b"], "b")
        relate(ctx, a, b, False, "different types")
    elif k == "order":
        x, y = ctx.s("x", 32), ctx.s("y", 32)
        u, v = ctx.s("u", 32), ctx.s("v", 32)
        a = VariableStruct({"p": VariableInt(x), "q": VariableInt(y)})
        b = VariableStruct({"q": VariableInt(u), "p": VariableInt(v)})
        relate(ctx, a, b, x == v and y == u, "member order")
    elif k == "order4":
        keys = ("a", "b", "z", "0")
        vals = [ctx.s("x%d" % i, 32) for i in range(4)]
        a = VariableStruct({n: VariableInt(v) for n, v in zip(keys, vals)})
        for perm in itertools.permutations(range(4)):
            b = VariableStruct({keys[i]: VariableInt(vals[i]) for i in perm})
            relate(ctx, a, b, True, "member order")
        d = ctx.s("d", 32)
        for i in range(4):
            c = copy.deepcopy(a)
            c.value[keys[i]] = VariableInt(d)
            relate(ctx, a, c, d == vals[i], "one member")
        for i in range(4):
            c = copy.deepcopy(a)
            del c.value[keys[i]]
            relate(ctx, a, c, False, "member missing")
    elif k == "long":
        n = 40
        i = ctx.int("i", 0, n - 1)
        x, d = ctx.s("x", 32), ctx.s("d", 32)
        i = ctx.concrete(i)
        a = VariableArray(VariableInt, [VariableInt(x if j == i else j) for j in range(n)])
        b = VariableArray(VariableInt, [VariableInt(d if j == i else j) for j in range(n)])
        relate(ctx, a, b, x == d, "long array")
        relate(ctx, VariableString(b"s" * n + bytes([i])), VariableString(b"s" * n + bytes([0])), i == 0, "long string")
    elif k == "corner":
        # values Python holds equal although they are not the same object or text
        f = ctx.flt("f", -8, 8, 4)
        for a, b in ((0.0, -0.0), (f, f + 0.0)):
            pairs = [(VariableFloat(a), VariableFloat(b)), (VariableVec2((a, 1.0)), VariableVec2((b, 1.0))),
                     (VariableVec2((1.0, a)), VariableVec2((1.0, b)))]
            pairs += [(VariableArray(type(p), [p]), VariableArray(type(q), [q])) for p, q in pairs]
            pairs += [(VariableStruct({"k": p}), VariableStruct({"k": q})) for p, q in pairs]
            for p, q in pairs:
                if p == q:
                    ctx.check(q == p, "symmetry")
                    ctx.check(hash(p) == hash(q), "equal objects hash alike")
                else:
                    ctx.check(p != q, "inequality")
    elif k == "foreign":
        for a in (VariableInt(ctx.s("x", 32)), VariableStruct({}), VariableArray(VariableInt), VariableString(ctx.bytes("s", 2)),
                  Tile()):
            for o in (None, 5, "x", b"x", (), VariableBool(True), Tile(TileShape.HALF_A)):
                ctx.check(not (a == o) and a != o, "different kinds of objects")
    elif k == "tiles":
        a, b = L.tile(ctx, "a"), L.tile(ctx, "b")
        relate(ctx, a, b, tile_key(L.snap_tile(a)) == tile_key(L.snap_tile(b)), "tiles")
    elif k == "copy":
        a = L.tile(ctx, "a")
        b = copy.deepcopy(a)
        relate(ctx, a, b, True, "tile copy")
        b.sprite_palette = a.sprite_palette ^ 1
        relate(ctx, a, b, False, "tile palette")
    else:
        a = L.tile(ctx, "a")
        b = copy.deepcopy(a)
        s = L.snap_tile(a)
        e = L.edge(ctx, "n")
        b.edge_data[case["side"]] = e
        relate(ctx, a, b, L.snap_edge(e) == s["edges"][case["side"]], "tile edge")
