"""C08: strings longer than one encoded piece are split and rejoined."""

from checks import ref
from checks.common import finish, reader, writer
from dustmaker.variable import (
    VariableArray, VariableBool, VariableInt, VariableString, VariableStruct, VariableType,
)

M = 65535
BOUNDS = {
    "quick": "one string of each length within 1 of 0, M, 2M, 3M (M=65535) and of 13 lengths between as struct member or array element, "
    "followed by a second member/element; the bytes around every piece boundary and both ends arbitrary, the rest fixed",
    "thorough": "as quick plus further lengths up to 5M+3 and every stream alignment",
}
OUTSIDE = "lengths other than those stated; bytes away from the piece boundaries are fixed"
OPTS = {"quick": {"steps": 4000000}, "thorough": {"steps": 20000000}}


def cases(tier):
    out = []
    lens = [0, 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1]
    lens += [2, 63, 64, 255, 256, 1000, 4096, 32767, 32768, M - 100, M + 100, 3 * M - 1, 3 * M, 3 * M + 1]
    if tier != "quick":
        lens += [4 * M, 5 * M + 3, 2 ** 10, 2 ** 16, 2 ** 16 + 1, 2 ** 17]
    for n in lens:
        out.append({"k": "struct", "n": [n, 2], "p": 0})
        out.append({"k": "array", "n": [n, 1], "p": 4})
    out.append({"k": "array", "n": [M, M], "p": 4})
    out.append({"k": "array", "n": [1, 2 * M], "p": 4})
    out.append({"k": "struct", "n": [M, M], "p": 0})
    out.append({"k": "toolong"})
    out.append({"k": "toomany"})
    for n in (M, M + 1):
        for p in (1, 6) if tier == "quick" else range(8):
            out.append({"k": "struct", "n": [n, 2], "p": p})
            out.append({"k": "array", "n": [n, 1], "p": p})
    return out


def long_bytes(ctx, name, n):
    """n bytes, arbitrary next to every piece boundary and at both ends."""
    marks = set()
    for b in (0, M, 2 * M, 3 * M, n):
        for d in (-2, -1, 0, 1):
            if 0 <= b + d < n:
                marks.add(b + d)
    out = []
    prev = 0
    for i in sorted(marks):
        if i > prev:
            out.append(bytes([(j * 7 + j // 256) & 255 for j in range(prev, i)]))
        out.append(ctx.bytes("%s@%d" % (name, i), 1))
        prev = i + 1
    if n > prev:
        out.append(bytes([(j * 7 + j // 256) & 255 for j in range(prev, n)]))
    return b"".join(out)


def run(ctx, case):
    k = case["k"]
    if k == "toolong":
        big = VariableString(bytes(M + 1))
        failed = False
        try:
            writer().write_variable(big)
        except ValueError:
            failed = True
        ctx.check(failed, "bare string over the limit accepted")
        return
    if k == "toomany":
        arr = VariableArray(VariableBool, [VariableBool(True)])
        arr.value[1].extend(arr.value[1] * M)
        failed = False
        try:
            writer().write_variable(arr)
        except ValueError:
            failed = True
        ctx.check(failed, "array over the limit accepted")
        return
    p = case["p"]
    vals = [long_bytes(ctx, "s%d" % i, n) for i, n in enumerate(case["n"])]
    num = ctx.s("num", 32)
    lead = ctx.u("lead", p) if p else 0
    wr = writer()
    if p:
        wr.write(p, lead)
    if k == "struct":
        fields = {}
        want = []
        for i, v in enumerate(vals):
            key = "ab"[i]
            fields[key] = VariableString(v)
            want.append((key, (ref.STRING, v)))
        fields["z"] = VariableInt(num)
        want.append(("z", (ref.INT, num)))
        wr.write_variable(VariableStruct(fields))
        rv = (ref.STRUCT, want)
    else:
        wr.write_variable(VariableArray(VariableString, [VariableString(v) for v in vals]))
        wr.write(32, num)
        rv = (ref.ARRAY, (ref.STRING, [(ref.STRING, v) for v in vals]))
    data = finish(wr)
    rd = reader(data)
    if p:
        rd.read(p)
    if k == "struct":
        got = rd.read_variable(VariableType.STRUCT).value
        ctx.check(list(got) == [key for key, _ in want], "keys")
        for i, v in enumerate(vals):
            g = got["ab"[i]].value
            ctx.check(len(g) == len(v), "string length")
            ctx.check(g == v, "string content")
        ctx.check(got["z"].value == num, "following member")
    else:
        got = rd.read_variable(VariableType.ARRAY)
        ctx.check(got.value[0] is VariableString, "element type")
        ctx.check(len(got.value[1]) == len(vals), "number of elements")
        for i, v in enumerate(vals):
            g = got.value[1][i].value
            ctx.check(len(g) == len(v), "element length")
            ctx.check(g == v, "element content")
        ctx.check(rd.read(32, True) == num, "data after the array")
    # piece sizes as the game expects them
    total = p
    if k == "struct":
        total += 4 + (4 + 6 + 6 + 32)
        for v in vals:
            for c in ref.chunks(v):
                total += 4 + 12 + 16 + 8 * len(c)
    else:
        total += 4 + 16 + 32
        for v in vals:
            for c in ref.chunks(v):
                total += 16 + 8 * len(c)
    ctx.check(len(data) == (total + 7) // 8, "encoded size")
