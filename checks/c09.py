"""C09: variable files (stats, config, fog files...)."""

from checks import ref
from checks.common import finish, long_bytes, raises, reader, writer
from checks.vars import build_map, check_map
from dustmaker.exceptions import LevelParseException
from dustmaker.variable import VariableArray, VariableInt, VariableString

BOUNDS = {
    "quick": "arbitrary headers of 0..9 bytes; maps of 0..2 entries of every type; start offsets 0..5 bytes; "
    "headers of up to 300 bytes; files of up to 140 kB (one long string, 300 members, 5000 array elements) with some values arbitrary",
    "thorough": "as quick with headers up to 19 bytes and start offsets 0..11 bytes",
}
OPTS = {"quick": {"steps": 8000000}, "thorough": {"steps": 8000000}}

MAPS = [[], [[1, "b"]], [[2, "i"], [1, "s2"]], [[3, ["a", "t", [["t", [[1, "b"]]]]]]], [[1, "f"]],
        [[1, "v"], [0, "u"]], [[1, ["t", [[2, "s1"]]]]]]


def cases(tier):
    out = []
    q = tier == "quick"
    for h in range(10) if q else range(20):
        for mi in range(len(MAPS)):
            for off in range(6) if q else range(12):
                out.append({"k": "rt", "h": h, "m": mi, "off": off})
    for h, big, off in ((4, 300, 0), (0, 4097, 3), (6, 65535, 0), (6, 65536, 3), (9, 140001, 0), (40, 20, 17), (300, 3, 1)):
        out.append({"k": "rt", "h": h, "m": -1, "off": off, "big": big})
    for m in (-2, -3):
        out.append({"k": "rt", "h": 6, "m": m, "off": 0, "big": 3})
    for h in (1, 6, 20):
        out.append({"k": "bad", "h": h, "off": 0})
        out.append({"k": "bad", "h": h, "off": 1})
    return out


def big_map(ctx, kind, size):
    """Maps whose stored form is large: one long string, many members, a long array."""
    num = ctx.s("num", 32)
    if kind == -1:
        s = long_bytes(ctx, "s", size)
        return ({"str": VariableString(s), "num": VariableInt(num)}, [("str", (ref.STRING, s)), ("num", (ref.INT, num))])
    if kind == -2:
        refs = [("key_%d" % i, (ref.INT, num if i == 150 else i * 12345 - 99)) for i in range(300)]
        return {k: VariableInt(v[1]) for k, v in refs}, refs
    vals = [num if i in (0, 4999) else i for i in range(5000)]
    return ({"l": VariableArray(VariableInt, [VariableInt(v) for v in vals])},
            [("l", (ref.ARRAY, (ref.INT, [(ref.INT, v) for v in vals])))])


def run(ctx, case):
    h, off = case["h"], case["off"]
    header = ctx.bytes("h", h)
    pre = ctx.bytes("pre", off)
    if case["k"] == "bad":
        other = ctx.bytes("o", h)
        ctx.assume(other != header)
        wr = writer()
        wr.write_bytes(pre)
        wr.write_var_file(header, {})
        data = finish(wr)
        rd = reader(data)
        rd.read_bytes(off)
        ctx.check(raises(lambda: rd.read_var_file(other), LevelParseException) is not None,
                  "foreign header accepted")
        return
    if case["m"] < 0:
        vals, refs = big_map(ctx, case["m"], case["big"])
    else:
        vals, refs = build_map(ctx, MAPS[case["m"]], "m")
    post = ctx.bytes("post", 2)
    wr = writer()
    wr.write_bytes(pre)
    wr.write_var_file(header, vals)
    ctx.check(wr.aligned(), "writer left unaligned")
    wr.write_bytes(post)
    data = finish(wr)
    # reference
    b = ref.Bits()
    b.bytes(header)
    b.put(16, 1)
    size_at = b.n
    b.put(32, 0)
    ref.enc_var(b, (ref.STRUCT, refs))
    b.align()
    b.patch(size_at, 32, b.n // 8)
    want = pre + b.done() + post
    ctx.check(len(data) == len(want), "file size")
    ctx.check(data == want, "file layout")
    rd = reader(data)
    ctx.check(rd.read_bytes(off) == pre, "preceding data")
    got = rd.read_var_file(header)
    check_map(ctx, got, refs, "vars")
    rd.align()
    ctx.check(rd.read_bytes(2) == post, "following data")
    # header checked separately
    rd = reader(data)
    rd.read_bytes(off + h)
    check_map(ctx, rd.read_var_file(b""), refs, "vars without header")
