"""C34: malformed files are refused, never misread and never loop."""

import io
import zlib

from checks import ref, refenc
from checks.common import finish, reader, writer
from checks.vars import build_map, check_map
from dustmaker.dfreader import DFReader, read_level
from dustmaker.dfwriter import DFWriter
from dustmaker.exceptions import LevelParseException
from dustmaker.level import Level
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay
from dustmaker.variable import VariableType

BOUNDS = {
    "quick": "every wrong identifier (6 arbitrary bytes) of levels, level metadata, replays (outer and inner) and var files; level versions 0..42; every replay version "
    "byte; every variable type code 0..15 as struct member, array element type (0..2 elements) and nested inside arrays and structs, at 8 bit alignments; "
    "replays cut at every byte with and without a known length; replay input data cut at every byte or missing its end mark; levels of 1..2 regions "
    "cut at every byte of the region data",
    "thorough": "as quick with longer replays",
}
OUTSIDE = "data cut before the region directory ends (the bit reader yields zeros past the end); damage inside the compressed data (left to zlib's checksum)"
OPTS = {"quick": {"case": 120, "steps": 400000}, "thorough": {"case": 600, "steps": 400000}}
TYPES = [0, 1, 2, 3, 4, 5, 10, 14, 15]
BAD = [t for t in range(16) if t not in TYPES]


def cases(tier):
    out = [{"k": "magic", "w": w} for w in ("lvl", "mtd", "rpl", "rpl2", "DF_STA", "DF_CFG", "DF_FOG", "meta")]
    out += [{"k": "lver"}, {"k": "rver", "outer": 0}, {"k": "rver", "outer": 1}]
    for pre in range(8):
        out.append({"k": "vtype", "pre": pre})
        for n in (0, 1, 2):
            out.append({"k": "atype", "pre": pre, "n": n})
        out.append({"k": "nested", "pre": pre, "how": "as"})
        out.append({"k": "nested", "pre": pre, "how": "sa"})
        out.append({"k": "nested", "pre": pre, "how": "aa"})
    out.append({"k": "direct"})
    for user in (0, 1):
        for known in (0, 1):
            for part in range(4):
                out.append({"k": "cutrpl", "user": user, "known": known, "part": part, "n": 3 if tier == "quick" else 5})
    for ver in (1, 3, 4):
        for part in range(3):
            out.append({"k": "cutbody", "ver": ver, "part": part, "n": 2 if tier == "quick" else 3})
        out += [{"k": "noend", "ver": ver, "c": c} for c in (0, 1, 254)]
    for regs in (1, 2):
        for part in range(4):
            out.append({"k": "cutlvl", "regs": regs, "part": part})
    return out


def refused(ctx, fn, msg, exc=Exception):
    try:
        fn()
    except exc:
        ctx.check(True, msg)
        return
    ctx.check(False, msg)


def magic(ctx, *good):
    m = ctx.bytes("magic", 6)
    for g in good:
        ctx.assume(m != g)
    return m


def replay_bytes(ctx, ver=4, user=0, n=3):
    rep = Replay(version=ver, level=b"lvl", frames=n, username=b"me" if user else b"")
    p = PlayerData(character=Character(1))
    p.intents[IntentStream.X] = [ctx.int("x%d" % i, -1, 1) for i in range(n)]
    p.intents[IntentStream.TAUNT] = [i % 3 for i in range(n)]
    rep.players = [p]
    e = EntityData()
    e.frames = [EntityFrame(ctx.u("f", 8), 1.0, 2.0, 3.0, 4.0)]
    rep.entities = {3: e}
    w = writer()
    w.write_replay(rep)
    return finish(w)


def run(ctx, case):
    globals()["run_" + case["k"]](ctx, case)


def run_magic(ctx, case):
    w = case["w"]
    if w in ("lvl", "mtd", "meta"):
        m = magic(ctx, b"DF_MTD" if w == "mtd" else b"DF_LVL")
        data = refenc.level(**{"mtd" if w == "mtd" else "magic": m})
        if w == "meta":
            refused(ctx, lambda: reader(data).read_level(metadata_only=True), "wrong identifier", LevelParseException)
            refused(ctx, lambda: reader(data).read_level_ex(), "wrong identifier", LevelParseException)
        else:
            refused(ctx, lambda: read_level(data), "wrong identifier", LevelParseException)
        return
    if w in ("rpl", "rpl2"):
        data = replay_bytes(ctx, user=w == "rpl2")
        m = magic(ctx, b"DF_RPL")
        at = 6 + 1 + 2 + 2 if w == "rpl2" else 0
        data = data[:at] + m + data[at + 6:]
        refused(ctx, lambda: reader(data).read_replay(), "wrong identifier", LevelParseException)
        return
    wr = writer()
    m, _ = build_map(ctx, [["k", "i"]], "m")
    wr.write_var_file(w.encode(), m)
    data = finish(wr)
    mg = magic(ctx, w.encode())
    refused(ctx, lambda: reader(mg + data[6:]).read_var_file(w.encode()), "wrong identifier", LevelParseException)


def run_lver(ctx, case):
    v = ctx.int("v", 0, 42)
    data = refenc.level(version=v, sshot=b"abc")
    refused(ctx, lambda: read_level(data), "unsupported level version", LevelParseException)
    refused(ctx, lambda: reader(data).read_level_ex(), "unsupported level version", LevelParseException)


def run_rver(ctx, case):
    data = replay_bytes(ctx, user=case["outer"])
    at = 11 + 6 if case["outer"] else 6
    v = ctx.u("v", 8)
    for ok in (49, 51, 52):
        ctx.assume(v != ok)
    if not case["outer"]:
        ctx.assume(v != 50)
    data = data[:at] + bytes([v]) + data[at + 1:]
    refused(ctx, lambda: reader(data).read_replay(), "unknown replay version", LevelParseException)


def bad_type(ctx):
    t = ctx.int("type", 6, 13)
    ctx.assume(t != 10)
    return t


def stream(pre, fill):
    """A struct body starting `pre` bits into the stream."""
    b = ref.Bits()
    b.put(pre, 0)
    fill(b)
    for _ in range(40):
        b.put(8, 0)
    r = reader(b.done())
    r.read(pre)
    return r


def run_vtype(ctx, case):
    t = bad_type(ctx)

    def fill(b):
        b.put(4, ref.INT)
        ref.enc_6bit(b, "ok")
        b.put(32, 7)
        b.put(4, t)
        ref.enc_6bit(b, "bad")

    refused(ctx, lambda: stream(case["pre"], fill).read_variable_map(), "unknown variable type", LevelParseException)


def run_atype(ctx, case):
    t = bad_type(ctx)
    n = case["n"]

    def arr(b, code):
        b.put(4, code)
        b.put(16, n)
        b.put(64, 0)

    refused(ctx, lambda: stream(case["pre"], lambda b: arr(b, t)).read_variable(VariableType.ARRAY), "unknown element type", LevelParseException)
    refused(ctx, lambda: stream(case["pre"], lambda b: arr(b, 0)).read_variable(VariableType.ARRAY), "null element type", LevelParseException)


def run_nested(ctx, case):
    t = bad_type(ctx)
    how = case["how"]

    def fill(b):
        b.put(4, ref.ARRAY if how[0] == "a" else ref.STRUCT)
        ref.enc_6bit(b, "k")
        if how[0] == "a":
            b.put(4, ref.STRUCT if how[1] == "s" else ref.ARRAY)
            b.put(16, 1)
            b.put(4, t)
            b.put(16, 1)
        else:
            b.put(4, ref.ARRAY)
            ref.enc_6bit(b, "m")
            b.put(4, t)
            b.put(16, 1)

    refused(ctx, lambda: stream(case["pre"], fill).read_variable_map(), "unknown nested type", LevelParseException)


def run_direct(ctx, case):
    refused(ctx, lambda: stream(0, lambda b: None).read_variable(VariableType.NULL), "null variable", LevelParseException)


def part_of(lo, hi, part, parts):
    n = hi - lo
    return range(lo + n * part // parts, lo + n * (part + 1) // parts)


def run_cutrpl(ctx, case):
    data = replay_bytes(ctx, user=case["user"], n=case["n"])
    # where the compressed data ends: nothing follows it
    for cut in part_of(0, len(data), case["part"], 4):
        short = data[:cut]
        if case["known"]:
            refused(ctx, lambda: reader(short).read_replay(known_length=len(data)), "replay cut at byte %d" % cut)
        else:
            refused(ctx, lambda: reader(short).read_replay(), "replay cut at byte %d" % cut)


def split(ctx, data):
    """Header and decompressed body of a replay without user name."""
    head = 6 + 1 + 2 + 4 + 4 + 1 + 1 + 3
    return data[:head], zlib.decompress(data[head:])


def run_cutbody(ctx, case):
    head, body = split(ctx, replay_bytes(ctx, ver=case["ver"], n=case["n"]))
    for cut in part_of(0, len(body), case["part"], 3):
        data = head + zlib.compress(body[:cut])
        try:
            rep = reader(data).read_replay()
        except Exception:
            continue
        # whatever is returned has to be finite and no longer than the data
        for p in rep.players:
            for st in p.intents:
                ctx.check(len(p.intents[st]) <= 255 * len(body), "bounded result")


def run_noend(ctx, case):
    """The input data ends right where an end mark is due."""
    head, body = split(ctx, replay_bytes(ctx, ver=case["ver"], n=2))
    b = ref.Bits()
    b.put(32, 100)
    b.put(32, 3)
    b.put(8, case["c"])
    b.put(8, ctx.u("v", 8))
    refused(ctx, lambda: reader(head + zlib.compress(b.done())).read_replay(), "input stream without an end", LevelParseException)


def run_cutlvl(ctx, case):
    t = ctx.u("k", 31)
    regs = []
    for i in range(case["regs"]):
        regs.append({"x": i, "y": 0, "segs": [{"version": 8, "x": 0, "y": 0, "props": [(t, 3, 1, 2, 32, PROP)]}]})
    data = refenc.level(regions=regs)
    start = 6 + 2 + 4 + 4 + 6 + 2 + 4 + 16 + 4 + (4 + 32 * case["regs"] + 7) // 8
    for cut in part_of(start, len(data), case["part"], 4):
        refused(ctx, lambda: read_level(data[:cut]), "level cut at byte %d" % cut)


PROP = {"layer_sub": 1, "rotation": 2, "flip_x": False, "flip_y": True, "scale": 1.0, "prop_set": 4, "prop_group": 5, "prop_index": 6, "palette": 7}
