"""C07: variable trees survive writing and reading at any bit position."""

from checks import ref
from checks.common import finish, reader, writer
from checks.vars import build, check_same
from dustmaker.variable import VariableType

BOUNDS = {
    "quick": "every scalar type with all values; strings up to 3 bytes; arrays of every element type with 0..3 "
    "elements and structs with 0..3 entries nested to depth 4 (one shape per combination), chains nested to depth 8, all leaf values and "
    "keys (keys up to 3 characters), every alignment for scalars, alignments 0,3,5 for containers; arrays of 64..300 (booleans 1000) "
    "elements, structs of 260 members, keys of 63 characters, strings of 64..5000 bytes",
    "thorough": "as quick at all alignments",
}
OUTSIDE = "floats needing more than 53 significant bits at 2^-31 resolution; deeper nesting; larger containers"

SCALARS = ["b", "i", "u", "f", "v", "s0", "s1", "s3"]


def elem_type(s):
    return s[0]


def shapes(tier):
    out = []
    for s in SCALARS:
        e = elem_type(s)
        out.append(["a", e, []])
        out.append(["a", e, [s]])
        out.append(["a", e, [s, s]])
        out.append(["t", [[1, s]]])
        out.append(["t", [[2, s], [2, "b"]]])
        out.append(["t", [[1, "b"], [0, s], [3, "i"]]])
    out.append(["t", []])
    out.append(["a", "t", []])
    out.append(["a", "a", []])
    lvl2 = [["a", "b", ["b"]], ["a", "s", ["s1", "s0"]], ["t", [[1, "i"]]], ["t", []], ["a", "v", []],
            ["t", [[2, "s2"], [1, "f"]]]]
    for s in lvl2:
        e = elem_type(s)
        out.append(["a", e, [s]])
        out.append(["t", [[1, s], [2, "u"]]])
        for s2 in lvl2:
            if elem_type(s2) == e:
                out.append(["a", e, [s, s2]])
    out.append(["t", [[1, ["a", "t", [["t", [[1, "b"]]], ["t", [[2, ["a", "f", ["f"]]]]]]]]]])
    out.append(["a", "a", [["a", "a", [["a", "i", ["i"]]]], ["a", "b", []]]])
    lvl3 = list(out[-12:])
    for s in lvl3:
        e = elem_type(s)
        out.append(["a", e, [s, s]])
        out.append(["t", [[1, s], [1, s], [2, "b"]]])
    for s in SCALARS:
        out.append(["a", elem_type(s), [s, s, s]])
        out.append(["t", [[1, s], [1, s], [1, s]]])
    return out


def cases(tier):
    out = []
    for s in SCALARS + ["s7"]:
        for p in range(8):
            out.append({"s": s, "p": p})
    for s in shapes(tier):
        for p in (0, 3, 5) if tier == "quick" else range(8):
            out.append({"s": s, "p": p})
    # many elements / members, long keys
    for e in ("b", "u", "s1"):
        out.append({"s": ["a", e[0], [e] * 300], "p": 3})
    out.append({"s": ["a", "t", [["t", [["k", "b"]]]] * 260], "p": 0})
    out.append({"s": ["t", [["key%d" % i, "u"] for i in range(260)]], "p": 0})
    out.append({"s": ["t", [["k" * 63, "i"], ["Z" * 62 + "_", "s2"]]], "p": 0})
    out.append({"s": "s300", "p": 5})
    out.append({"s": "s5000", "p": 1})
    for n in (64, 65, 127, 128, 129, 255, 256, 257, 1000):
        for t in "biu":
            if n < 300 or t == "b":
                out.append({"s": ["a", t, [t] * n], "p": n % 8})
        out.append({"s": "s%d" % n, "p": n % 8})
    nest = "i"
    for d in range(1, 9):
        nest = ["a", nest[0], [nest]] if d % 2 else ["t", [[1, nest], [2, "b"]]]
        out.append({"s": nest, "p": d % 8})
    nest = ["a", "s", ["s2", "s0"]]
    for d in range(1, 8):
        nest = ["a", "a", [nest, ["a", "b", ["b"]]]]
        out.append({"s": nest, "p": d % 8})
    return out


CODES = {"b": 1, "i": 2, "u": 3, "f": 4, "s": 5, "v": 10, "t": 14, "a": 15}


def run(ctx, case):
    p = case["p"]
    var, want = build(ctx, case["s"], "v")
    lead = ctx.u("lead", p) if p else 0
    tail = ctx.u("tail", 11)
    wr = writer()
    if p:
        wr.write(p, lead)
    wr.write_variable(var)
    wr.write(11, tail)
    data = finish(wr)
    b = ref.Bits()
    if p:
        b.put(p, lead)
    ref.enc_var(b, want)
    b.put(11, tail)
    ctx.check(data == b.done(), "encoded form")
    rd = reader(data)
    if p:
        rd.read(p)
    got = rd.read_variable(VariableType(CODES[case["s"][0]]))
    ctx.check(rd.read(11) == tail, "trailer")
    check_same(ctx, got, want, "variable")
    ctx.check(got == var, "read back variable does not compare equal")
