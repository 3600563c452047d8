"""C29: array variables behave like typed lists and variables only hold what their type can represent."""

from checks import ref, vars as VS
from checks.common import raises
from dustmaker.variable import (
    VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableStruct, VariableUInt, VariableVec2,
)

BOUNDS = {
    "quick": "arrays of each element type with 0..3 arbitrary members; every list operation with an arbitrary index in -5..5 and arbitrary value, "
    "compared with a plain list; deletion of any slice; extending an array by itself; pairs of operations on 1..2 member arrays; "
    "arrays of 9, 17 and 40 members with any index; foreign values offered to every mutator; values of wrong type and integers of 40 bits offered to every constructor and mutator",
    "thorough": "as quick with triples of operations",
}
OUTSIDE = "reading and assigning slices, which VariableArray does not implement"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}
OPS = ["get", "set", "del", "insert", "append", "extend", "pop", "popi", "remove", "reverse", "clear", "iadd", "query"]
TYPES = ["b", "i", "u", "f", "v", "s"]


def cases(tier):
    out = []
    for t in TYPES:
        for n in range(4):
            for op in OPS:
                if t != "i" and n == 2:
                    continue
                out.append({"k": "op", "t": t, "n": n, "ops": [op]})
    for a in OPS:
        for b in OPS:
            out.append({"k": "op", "t": "i", "n": 2, "ops": [a, b]})
            if tier != "quick":
                for c in ("get", "set", "del", "insert", "pop", "query"):
                    out.append({"k": "op", "t": "i", "n": 2, "ops": [a, b, c]})
    for op in ("set", "insert", "append"):
        out.append({"k": "nest", "op": op, "t": "a"})
        out.append({"k": "nest", "op": op, "t": "t"})
    for t in ("s", "v", "b", "u") if tier == "quick" else TYPES:
        for a in OPS:
            for b in ("get", "set", "del", "insert", "pop", "remove", "query") if tier == "quick" else OPS:
                if t not in "vb" or a in ("set", "insert", "extend") or tier != "quick":
                    out.append({"k": "op", "t": t, "n": 1 if t == "v" else 2, "ops": [a, b]})
    for op in OPS:
        for n in (9, 40):
            out.append({"k": "big", "n": n, "ops": [op]})
        if op != "query" or tier != "quick":
            out.append({"k": "big", "n": 17, "ops": ["insert", op]})
    out += [{"k": "op", "t": t, "n": n, "ops": [op]} for t in "is" for n in (0, 1, 3) for op in ("dels", "delstep", "selfext", "find")]
    out += [{"k": "op", "t": "i", "n": 3, "ops": ["dels", b]} for b in ("get", "insert", "query")]
    out += [{"k": "foreign", "t": t} for t in TYPES + ["t", "a"]]
    out += [{"k": "range", "t": t} for t in ("i", "u")]
    out += [{"k": "bad", "t": t} for t in TYPES + ["t", "a"]]
    out += [{"k": "alias"}, {"k": "assert"}]
    return out


def value(ctx, t, name):
    """Arbitrary plain value of an element type."""
    if t == "b":
        return ctx.bool(name)
    if t == "i":
        return ctx.s(name, 32)
    if t == "u":
        return ctx.u(name, 32)
    if t == "f":
        return VS.flt(ctx, name)[0]
    if t == "v":
        return (VS.flt(ctx, name + "x")[0], VS.flt(ctx, name + "y")[0])
    return ctx.bytes(name, 2)


def index(ctx, name, top=5):
    return ctx.concrete(ctx.int(name, -top, top))


def content(ctx, arr, cls, want, msg):
    ctx.check(arr.element_type is cls, msg + ": element type")
    ctx.check(len(arr) == len(want), msg + ": length")
    raw = arr.value[1]
    ctx.check(len(raw) == len(want), msg + ": stored length")
    if len(arr) != len(want) or len(raw) != len(want):
        return
    for i in range(len(want)):
        ctx.check(arr[i] == want[i], "%s: item %d" % (msg, i))
        ctx.check(type(raw[i]) is cls and raw[i].value == want[i], "%s: boxed item %d" % (msg, i))


def step(ctx, op, arr, lst, t, name, top=5):
    """Apply the same operation to both; results and exceptions agree."""
    res = []
    v = value(ctx, t, name + ".v") if op in ("set", "insert", "append", "extend", "remove", "iadd", "query") else None
    w = value(ctx, t, name + ".w") if op in ("extend", "iadd") else None
    if op == "find":
        v = value(ctx, t, name + ".v")
    if op in ("dels", "delstep"):
        at = slice(*[None if b == 4 else b for b in (index(ctx, name + ".a", 4), index(ctx, name + ".b", 4))], None if op == "dels" else (2, -1)[ctx.concrete(ctx.int("st", 0, 1))])
    i = index(ctx, name + ".i", top) if op in ("get", "set", "del", "insert", "popi", "find") else None
    for o in (arr, lst):
        try:
            if op == "get":
                r = o[i]
            elif op == "set":
                o[i] = v
                r = None
            elif op == "del":
                del o[i]
                r = None
            elif op in ("dels", "delstep"):
                del o[at]
                r = None
            elif op == "selfext":
                o.extend(o)
                o += o
                r = None
            elif op == "find":
                r = o.index(v, i)
            elif op == "insert":
                r = o.insert(i, v)
            elif op == "append":
                r = o.append(v)
            elif op == "extend":
                r = o.extend([v, w])
            elif op == "iadd":
                o += [v, w]
                r = None
            elif op == "pop":
                r = o.pop()
            elif op == "popi":
                r = o.pop(i)
            elif op == "remove":
                r = o.remove(v)
            elif op == "reverse":
                r = o.reverse()
            elif op == "clear":
                r = o.clear()
            else:
                r = (v in o, o.count(v), o.index(v) if v in o else -1, [x for x in o], [x for x in reversed(o)], len(o))
            res.append(("ok", r))
        except (IndexError, ValueError) as exc:
            res.append((type(exc).__name__, None))
    ctx.check(res[0][0] == res[1][0], "%s: same outcome as on a list" % op)
    if res[0][0] == "ok" and res[1][0] == "ok":
        ctx.check(res[0][1] == res[1][1], "%s: same result as on a list" % op)


def run(ctx, case):
    k = case["k"]
    if k == "op":
        t = case["t"]
        cls = VS.ETYPES[t][0]
        lst = [value(ctx, t, "m%d" % i) for i in range(case["n"])]
        arr = VariableArray(cls, [cls(v) for v in lst])
        lst = list(lst)
        content(ctx, arr, cls, lst, "initially")
        for n, op in enumerate(case["ops"]):
            step(ctx, op, arr, lst, t, "o%d" % n)
            content(ctx, arr, cls, lst, "after " + op)
        return
    if k == "big":
        n = case["n"]
        lst = [(i * 37) % 11 for i in range(n)]
        lst[0], lst[n // 2], lst[n - 1] = [value(ctx, "i", "m%d" % i) for i in range(3)]
        arr = VariableArray(VariableInt, [VariableInt(v) for v in lst])
        for j, op in enumerate(case["ops"]):
            step(ctx, op, arr, lst, "i", "o%d" % j, 3 if op != case["ops"][-1] else n + 2)
            content(ctx, arr, VariableInt, lst, "after " + op)
        return
    if k == "foreign":
        t = case["t"]
        cls = VS.ETYPES[t][0]
        first = {"t": {"p": VariableInt(1)}, "a": (VariableInt, [VariableInt(1)])}.get(t)
        if first is None:
            first = value(ctx, t, "v")
        good = {"b": (bool,), "i": (int, bool), "u": (int, bool), "f": (float,), "v": (), "s": (bytes,), "t": (dict,), "a": ()}[t]
        num = ctx.s("num", 20)
        ctx.assume(num != 0)
        for v in (True, num, 1.5, b"x", "x", None, (1.0,), (1.0, 2.0, 3.0), (1.0, b"x"), {"a": 1}, [1], VariableInt(1), VariableBool(True),
                  VariableString(b"q"), VariableVec2((1.0, 2.0)), VariableArray(VariableInt, [])):
            if t == "u" and v is num or t == "t" and not v:
                continue
            if type(v) in good and not isinstance(v, dict) or (v is num and int in good):
                continue
            for how in ("append", "insert", "set", "extend", "iadd"):
                arr = VariableArray(cls, [cls(*first) if t == "a" else cls(first)])
                try:
                    if how == "append":
                        arr.append(v)
                    elif how == "insert":
                        arr.insert(0, v)
                    elif how == "set":
                        arr[0] = v
                    elif how == "extend":
                        arr.extend([v])
                    else:
                        arr += [v]
                    ok = True
                except (AssertionError, TypeError, ValueError, AttributeError):
                    ok = False
                ctx.check(not ok, "%s accepts a foreign value" % how)
                ctx.check(len(arr) == 1 and type(arr.value[1][0]) is cls and arr[0] == first, "%s: array kept" % how)
        return
    if k == "nest":
        x, y = ctx.s("x", 32), ctx.s("y", 32)
        if case["t"] == "a":
            old, new = (VariableInt, [VariableInt(x)]), (VariableUInt, [VariableUInt(7), VariableUInt(8)])
            arr = VariableArray(VariableArray, [VariableArray(*old)])
        else:
            old, new = {"p": VariableInt(x)}, {"q": VariableInt(y), "r": VariableBool(True)}
            arr = VariableArray(VariableStruct, [VariableStruct(old)])
        if case["op"] == "set":
            arr[0] = new
            want = [new]
        elif case["op"] == "insert":
            arr.insert(0, new)
            want = [new, old]
        else:
            arr.append(new)
            want = [old, new]
        ctx.check(len(arr) == len(want), "nested: length")
        for i in range(len(want)):
            ctx.check(arr[i] == want[i], "nested: item")
            ctx.check(type(arr.value[1][i]) is arr.element_type, "nested: boxed item")
        return
    if k == "range":
        v = ctx.s("v", 40)
        cls, lo, hi = (VariableInt, -(1 << 31), (1 << 31) - 1) if case["t"] == "i" else (VariableUInt, 0, (1 << 32) - 1)
        fits = v >= lo and v <= hi
        arr = VariableArray(cls, [cls(3), cls(4)])
        for n, fn in enumerate((lambda: cls(v), lambda: arr.append(v), lambda: arr.insert(0, v), lambda: arr.__setitem__(0, v))):
            r = raises(fn, AssertionError)
            ctx.check((r is None) == fits, "only representable integers are accepted")
        if not fits:
            content(ctx, arr, cls, [3, 4], "after rejected values")
        var = cls(0)
        var.value = v
        ctx.check((raises(var.assert_types, ValueError) is None) == fits, "assert_types")
        return
    if k == "bad":
        t = case["t"]
        cls = VS.ETYPES[t][0]
        good = {"b": (True,), "i": (1, True), "u": (1, True), "f": (1.5,), "v": ((1.0, 2.0),), "s": (b"x",), "t": (), "a": ()}[t]
        for v in (True, 1, 1.5, (1.0, 2.0), b"x", "x", None, (1.0,), (3, 4), (1.0, 2.0, 3.0), {"a": 1}, {1: VariableInt(1)},
                  [VariableInt(1)], (1.0, b"x")):
            if any([type(v) is type(g) and v == g for g in good]):
                ctx.check(cls(v).value == v, "fitting value accepted")
                continue
            if t in ("t", "a") and not v:
                continue
            if t == "a":
                r = raises(lambda: VariableArray(VariableInt, [v]), AssertionError, TypeError, ValueError)
            else:
                r = raises(lambda: cls(v), AssertionError, TypeError, ValueError)
            ctx.check(r is not None, "value of another type rejected")
        ctx.check(raises(lambda: VariableArray(VariableInt, [VariableUInt(1)]), AssertionError) is not None, "mixed array rejected")
        ctx.check(raises(lambda: VariableArray(int, []), AssertionError) is not None, "element type must be a variable type")
        return
    if k == "alias":
        x = ctx.s("x", 32)
        src = [VariableInt(x)]
        arr = VariableArray(VariableInt, src)
        arr.append(5)
        ctx.check(len(src) == 1, "array shares the list it was made from")
        src.append(VariableInt(6))
        content(ctx, arr, VariableInt, [x, 5], "array and source")
        d = {"a": VariableInt(x)}
        st = VariableStruct(d)
        st.value["b"] = VariableInt(1)
        ctx.check(len(d) == 1, "struct shares the dict it was made from")
        ctx.check(len(VariableArray(VariableInt)) == 0 and VariableStruct().value == {}, "defaults are empty")
        a, b = VariableArray(VariableInt), VariableArray(VariableInt)
        a.append(x)
        ctx.check(len(b) == 0, "arrays share their default")
        return
    x = ctx.s("x", 32)
    st = VariableStruct({"a": VariableInt(x), "b": VariableArray(VariableInt, [VariableInt(x)])})
    ctx.check(raises(st.assert_types, ValueError) is None, "valid struct")
    st.value["b"].value[1].append(VariableUInt(1))
    ctx.check(raises(st.assert_types, ValueError) is not None, "wrong member deep inside is found")
    st = VariableStruct({"a": VariableInt(x)})
    st.value["a"].value = b"no"
    ctx.check(raises(st.assert_types, ValueError) is not None, "wrong value inside is found")
