"""Construction and structural comparison of variable trees.

A shape is: "b" bool, "i" int, "u" uint, "f" float, "v" vec2, "sN" string of N
bytes, ["a", E, [shapes]] array with element type E ("b".."v","s","a","t"),
["t", [[keylen, shape], ...]] struct.
"""

from checks import ref
from dustmaker.variable import (
    VariableArray, VariableBool, VariableFloat, VariableInt, VariableString, VariableStruct,
    VariableUInt, VariableVec2,
)

ETYPES = {
    "b": (VariableBool, ref.BOOL), "i": (VariableInt, ref.INT), "u": (VariableUInt, ref.UINT),
    "f": (VariableFloat, ref.FLOAT), "v": (VariableVec2, ref.VEC2), "s": (VariableString, ref.STRING),
    "a": (VariableArray, ref.ARRAY), "t": (VariableStruct, ref.STRUCT),
}
DEN = 1 << 31
LIM = 1 << 44


def key_text(ctx, name, n):
    text = ctx.text(name, n, 0x30, 0x7B)
    for ch in text:
        v = ord(ch)
        ctx.assume(v <= 0x39 or (v >= 0x41 and v <= 0x5A) or v == 0x5F or v >= 0x61)
    return text


def flt(ctx, name):
    """(value, numerator over 2**31)"""
    num = ctx.int(name, -LIM, LIM)
    return num / DEN, num


def build(ctx, shape, name):
    """(variable, reference) for a shape with arbitrary leaf values."""
    if shape == "b":
        v = ctx.bool(name)
        return VariableBool(v), (ref.BOOL, v)
    if shape == "i":
        v = ctx.s(name, 32)
        return VariableInt(v), (ref.INT, v)
    if shape == "u":
        v = ctx.u(name, 32)
        return VariableUInt(v), (ref.UINT, v)
    if shape == "f":
        v, n = flt(ctx, name)
        return VariableFloat(v), (ref.FLOAT, n)
    if shape == "v":
        v0, n0 = flt(ctx, name + "x")
        v1, n1 = flt(ctx, name + "y")
        return VariableVec2((v0, v1)), (ref.VEC2, (n0, n1))
    if shape[0] == "s":
        v = ctx.bytes(name, int(shape[1:]))
        return VariableString(v), (ref.STRING, v)
    if shape[0] == "a":
        cls, code = ETYPES[shape[1]]
        elems, refs = [], []
        for i, s in enumerate(shape[2]):
            v, r = build(ctx, s, "%s.%d" % (name, i))
            elems.append(v)
            refs.append(r)
        return VariableArray(cls, elems), (ref.ARRAY, (code, refs))
    out, refs = build_map(ctx, shape[1], name)
    return VariableStruct(out), (ref.STRUCT, refs)


def build_map(ctx, fields, name):
    """Mapping with distinct arbitrary keys: (dict, reference pairs)."""
    out, refs, keys = {}, [], []
    for i, (klen, s) in enumerate(fields):
        k = klen if isinstance(klen, str) else key_text(ctx, "%s.k%d" % (name, i), klen)
        for other in keys:
            if len(other) == len(k):
                ctx.assume(k != other)
        keys.append(k)
        v, r = build(ctx, s, "%s.%d" % (name, i))
        out[k] = v
        refs.append((k, r))
    return out, refs


def check_same(ctx, got, want, msg):
    """Variable `got` matches reference `want`, in type and value."""
    t, v = want
    names = {
        ref.BOOL: VariableBool, ref.INT: VariableInt, ref.UINT: VariableUInt, ref.FLOAT: VariableFloat,
        ref.STRING: VariableString, ref.VEC2: VariableVec2, ref.ARRAY: VariableArray,
        ref.STRUCT: VariableStruct,
    }
    ctx.check(type(got) is names[t], msg + ": type")
    if t in (ref.BOOL, ref.INT, ref.UINT, ref.STRING):
        ctx.check(got.value == v, msg + ": value")
    elif t == ref.FLOAT:
        ctx.check(got.value * DEN == v, msg + ": float value")
    elif t == ref.VEC2:
        ctx.check(got.value[0] * DEN == v[0] and got.value[1] * DEN == v[1], msg + ": vec2 value")
    elif t == ref.ARRAY:
        code, refs = v
        cls = names[code]
        ctx.check(got.value[0] is cls, msg + ": element type")
        elems = got.value[1]
        ctx.check(len(elems) == len(refs), msg + ": array length")
        if len(elems) == len(refs):
            for i in range(len(refs)):
                check_same(ctx, elems[i], refs[i], "%s[%d]" % (msg, i))
    else:
        check_map(ctx, got.value, v, msg)


def check_map(ctx, got, refs, msg):
    """Mapping `got` has exactly the reference entries, in order."""
    items = list(got.items())
    ctx.check(len(items) == len(refs), msg + ": number of entries")
    if len(items) == len(refs):
        for i in range(len(refs)):
            ctx.check(items[i][0] == refs[i][0], "%s: key %d" % (msg, i))
            check_same(ctx, items[i][1], refs[i][1], "%s.%d" % (msg, i))
