"""C18: replay files have the layout the game uses, in both directions."""

import io
import zlib

from checks.ref import Bits
from checks.reflevel import Cursor
from checks.replays import BITS, check_frame, check_intents, frame, meaning, neutral_raw, raw, streams
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import Character, EntityData, IntentStream, PlayerData, Replay

BOUNDS = {
    "quick": "written files decoded by an independent decoder: versions 1, 3, 4, 0..2 players, every stream with 0..4 arbitrary values, "
    "runs around 255, 510 and 765, 0..2 entities; files made by an independent encoder with 0..3 runs of arbitrary "
    "value and lengths 1, 2, 254, 255 per run, read back; all header fields arbitrary",
    "thorough": "as quick with 6 values and runs around every multiple of 255 up to 2550",
}
OUTSIDE = "zlib replaced by an identity codec"
OPTS = {"quick": {}, "thorough": {}}


def cases(tier):
    out = []
    for ver in (1, 3, 4):
        for st in streams(ver):
            for n in ((0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6)):
                out.append({"k": "w", "ver": ver, "st": st, "n": n})
            for runs in ([[3, 1]], [[0, 2], [254, 1]], [[254, 255], [0, 1], [1, 2]], [[0, 255], [0, 255], [254, 1]]):
                out.append({"k": "r", "ver": ver, "st": st, "runs": runs[0:1] if len(runs) == 1 else runs})
        for np in (1, 2):
            if ver != 1 or np == 1:
                out.append({"k": "wh", "ver": ver, "np": np})
                out.append({"k": "rh", "ver": ver, "np": np})
    for n in sorted({255 * k + d for k in ((1, 2, 3) if tier == "quick" else range(1, 11)) for d in (-1, 0, 1, 2)}):
        out.append({"k": "wl", "n": n, "st": 5})
        out.append({"k": "wl", "n": n, "st": 0})
    return out


def decode(ctx, data):
    """Independent decoder of a replay file."""
    c = Cursor(data)
    r = {"user": None, "data": data}
    ctx.check(c.bytes(6) == b"DF_RPL", "magic")
    ver = ctx.concrete(c.u(8)) - 48
    if ver == 2:
        r["user"] = c.bytes(ctx.concrete(c.u(16)))
        ctx.check(c.bytes(6) == b"DF_RPL", "inner magic")
        ver = ctx.concrete(c.u(8)) - 48
    r["ver"] = ver
    np = ctx.concrete(c.u(16))
    size = c.u(32)
    r["frames"] = c.u(32)
    r["chars"] = [c.u(8) for _ in range(np)]
    r["level"] = c.bytes(ctx.concrete(c.u(8)))
    body = zlib.decompress(c.bytes(len(data) - c.pos // 8))
    ctx.check(size == len(body), "uncompressed size")
    b = Cursor(body)
    total = ctx.concrete(b.u(32))
    start = b.pos
    r["players"] = []
    for _ in range(np):
        p = {}
        for st in streams(ver):
            n = ctx.concrete(b.u(32))
            end = b.pos + 8 * n
            vals = []
            state, first = neutral_raw(st), True
            while True:
                count = ctx.concrete(b.u(8))
                if count == 0xFF:
                    break
                vals.extend([state] * (count if first else count + 1))
                first = False
                state = b.u(BITS[st])
            ctx.check((b.pos + 7) // 8 * 8 == end, "stream length field")
            b.pos = end
            p[st] = vals
        r["players"].append(p)
    ctx.check(b.pos - start == 8 * total, "input section length")
    r["ents"] = []
    for i in range(ctx.concrete(b.u(32))):
        uid = b.u(32)
        idx = b.u(32)
        ctx.check(idx == i, "entity index")
        fs = []
        for _ in range(ctx.concrete(b.u(32))):
            fs.append([b.u(32) for _ in range(5)])
        r["ents"].append((uid, fs))
    ctx.check(b.pos == 8 * len(body), "nothing follows the entities")
    return r


def encode(ver, user, frames, chars, level, players, ents):
    """Independent encoder; players: {stream: [first count, [(value, count)...]]}"""
    s = Bits()
    s.put(32, 0)
    for p in players:
        for st in streams(ver):
            first, runs = p.get(st, (0, []))
            at = s.n
            s.put(32, 0)
            s.put(8, first)
            for v, n in runs:
                s.put(BITS[st], v)
                s.put(8, n - 1)
            s.put(BITS[st], neutral_raw(st))
            s.put(8, 0xFF)
            s.align()
            s.patch(at, 32, (s.n - at - 32) // 8)
    s.patch(0, 32, (s.n - 32) // 8)
    s.put(32, len(ents))
    for i, (uid, fs) in enumerate(ents):
        s.put(32, uid)
        s.put(32, i)
        s.put(32, len(fs))
        for f in fs:
            for v in f:
                s.put(32, v)
    body = s.done()
    h = Bits()
    if user is not None:
        h.bytes(b"DF_RPL2")
        h.put(16, len(user))
        h.bytes(user)
    h.bytes(b"DF_RPL")
    h.put(8, 48 + ver)
    h.put(16, len(players))
    h.put(32, len(body))
    h.put(32, frames)
    for c in chars:
        h.put(8, c)
    h.put(8, len(level))
    h.bytes(level)
    return h.done() + zlib.compress(body)


def write(rep, force=False):
    buf = io.BytesIO()
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep, force_username=force)
    w.close()
    return buf.getvalue()


def check_vals(ctx, got, want, st, msg):
    z = neutral_raw(st)
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else z
        w = want[i] if i < len(want) else z
        ctx.check(g == w, "%s: stream %d at frame %d" % (msg, st, i))


def run(ctx, case):
    k = case["k"]
    if k in ("w", "wl"):
        st = case["st"]
        if k == "w":
            ver = case["ver"]
            vals = [raw(ctx, "v%d" % i, st) for i in range(case["n"])]
        else:
            ver = 4
            vals = [raw(ctx, "a", st)] + [raw(ctx, "b", st)] * case["n"] + [raw(ctx, "c", st)]
        p = PlayerData(Character(2), {IntentStream(st): [meaning(st, v) for v in vals]})
        r = decode(ctx, write(Replay(ver, b"", b"lv", 77, [p])))
        ctx.check(r["ver"] == ver and r["user"] is None and r["frames"] == 77 and r["level"] == b"lv", "header")
        ctx.check(len(r["players"]) == 1 and r["chars"] == [2] and not r["ents"], "players")
        for o in streams(ver):
            check_vals(ctx, r["players"][0][o], vals if o == st else [], o, "written")
        return
    if k == "wh":
        ver, np = case["ver"], case["np"]
        chars = [ctx.enum("ch%d" % i, Character) for i in range(np)]
        user, level, fr = ctx.bytes("un", 2), ctx.bytes("lv", 3), ctx.u("fr", 32)
        v = [raw(ctx, "v%d" % i, 2) for i in range(np)]
        ids = [ctx.u("id%d" % i, 32) for i in range(2)]
        ctx.assume(ids[0] != ids[1])
        fs = [frame(ctx, "e%d" % i) for i in range(3)]
        rep = Replay(ver, user, level, fr, [PlayerData(c, {IntentStream.JUMP: [v[i]]}) for i, c in enumerate(chars)],
                     {ids[0]: EntityData([fs[0][0], fs[1][0]]), ids[1]: EntityData([fs[2][0]])})
        r = decode(ctx, write(rep))
        ctx.check(r["ver"] == ver and r["user"] == user and r["level"] == level, "header")
        ctx.check(r["frames"] == fr, "frames")
        ctx.check(len(r["chars"]) == np, "player count")
        for i in range(np):
            ctx.check(r["chars"][i] == chars[i], "character")
            check_vals(ctx, r["players"][i][2], [v[i]], 2, "player %d" % i)
        ctx.check(len(r["ents"]) == 2, "entity count")
        for i, (uid, got) in enumerate(r["ents"]):
            ctx.check(uid == ids[i], "entity id")
            want = [fs[0][1], fs[1][1]] if i == 0 else [fs[2][1]]
            ctx.check(len(got) == len(want), "frame count")
            for g, w in zip(got, want):
                for a, b in zip(g, [w["f"], w["x"], w["y"], w["u"], w["v"]]):
                    ctx.check(a == b % (1 << 32), "entity frame field")
        r = decode(ctx, write(Replay(ver, b"", b"", 1, [PlayerData()]), True))
        ctx.check(r["user"] is not None and len(r["user"]) == 0, "forced user name header")
        return
    if k == "r":
        ver, st = case["ver"], case["st"]
        first = case["runs"][0][0]
        runs, want = [], [neutral_raw(st)] * first
        for i, (_, n) in enumerate(case["runs"]):
            v = raw(ctx, "v%d" % i, st)
            runs.append((v, n))
            want.extend([v] * n)
        data = encode(ver, None, len(want), [1], b"lv", [{st: (first, runs)}], [])
        for known in (None, len(data)):
            got = DFReader(io.BytesIO(data)).read_replay(known_length=known)
            ctx.check(got.version == ver and got.frames == len(want) and got.level == b"lv" and got.username == b"", "header")
            vals = got.players[0].intents.get(IntentStream(st), [])
            m = [meaning(st, v) for v in want]
            z = meaning(st, neutral_raw(st))
            ctx.check(len(vals) <= len(m), "extra frames")
            for i in range(len(m)):
                ctx.check((vals[i] if i < len(vals) else z) == m[i], "value read")
            for o in streams(4):
                if o != st:
                    check_intents(ctx, got.players[0], o, [], "read", 1)
        return
    # rh
    ver, np = case["ver"], case["np"]
    chars = [ctx.enum("ch%d" % i, Character) for i in range(np)]
    user, level, fr = ctx.bytes("un", 2), ctx.bytes("lv", 3), ctx.u("fr", 32)
    v = [raw(ctx, "v%d" % i, 4) for i in range(np)]
    ids = [ctx.u("id%d" % i, 32) for i in range(2)]
    ctx.assume(ids[0] != ids[1])
    fs = [frame(ctx, "e%d" % i)[1] for i in range(3)]
    rec = [[f["f"], f["x"], f["y"], f["u"], f["v"]] for f in fs]
    data = encode(ver, user, fr, chars, level, [{4: (1, [(v[i], 2)])} for i in range(np)],
                  [(ids[0], rec[:2]), (ids[1], rec[2:])])
    for known in (None, len(data)):
        got = DFReader(io.BytesIO(data)).read_replay(known_length=known)
        ctx.check(got.version == ver and got.username == user and got.level == level, "header")
        ctx.check(got.frames == fr, "frames")
        ctx.check(len(got.players) == np, "player count")
        for i in range(np):
            ctx.check(got.players[i].character == chars[i], "character")
            check_intents(ctx, got.players[i], 4, [0, v[i], v[i]], "player %d" % i)
        ctx.check(len(got.entities) == 2, "entity count")
        for i, want in enumerate((fs[:2], fs[2:])):
            d = got.entities.get(ids[i])
            ctx.check(d is not None and len(d.frames) == len(want), "entity")
            if d is not None and len(d.frames) == len(want):
                for j, n in enumerate(want):
                    check_frame(ctx, d.frames[j], n, "entity frame")
