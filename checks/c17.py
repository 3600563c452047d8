"""C17: replays survive writing and reading."""

import io

from checks.replays import check_frame, check_intents, frame, meaning, raw, streams
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, PlayerData, Replay

BOUNDS = {
    "quick": "versions 1, 3, 4; 1..2 players (and 0, 4, 9 for 3, 4) with arbitrary characters; one or two intent streams with 0..6 frames of "
    "arbitrary values each, all others short or absent; runs of 253..257, 508..512, 763..767, 1018..1022, 1783..1787, 2548..2552 equal frames with arbitrary values around "
    "them, at the start, middle and end; 0..2 entities with 0..2 frames, all fields arbitrary 32 bit; streams of 40 and 300 short runs, 20 and 300 entities and "
    "40 and 300 frames per entity with up to 3 arbitrary among fixed ones; user names of 0..3, 255, 256, 300, 65535 "
    "bytes, forced or not; level names of 0..3 and 255 bytes; length given or not; stream offsets 0 and 3; 2 replays in a row",
    "thorough": "as quick with up to 8 arbitrary frames per stream and runs around every multiple of 255 up to 4080, streams of 1100 short runs",
}
OUTSIDE = "zlib replaced by an identity codec; replays whose intents hold values outside the stored ranges"
LENS = (253, 254, 255, 256, 257, 509, 510, 511, 512, 513, 765, 766, 767)


def cases(tier):
    out = []
    nmax = 6 if tier == "quick" else 8
    for ver in (1, 3, 4):
        for st in streams(ver):
            for n in range(1, nmax + 1):
                if ver != 4 and n not in (1, 3):
                    continue
                out.append({"k": "stream", "ver": ver, "st": st, "n": n})
    lens = sorted({255 * k + d for k in ((1, 2, 3, 4, 7, 10) if tier == "quick" else range(1, 17)) for d in (-2, -1, 0, 1, 2)})
    for i, n in enumerate(lens):
        for pos in ("first", "mid", "last", "default_first", "default_mid", "only"):
            out.append({"k": "run", "n": n, "pos": pos, "st": (2, 0, 5, 10, 8)[i % 5]})
    for ver in (1, 3, 4):
        for np in (1, 2):
            if ver == 1 and np == 2:
                continue
            out.append({"k": "players", "ver": ver, "np": np})
        for ne in (0, 1, 2):
            for nf in (0, 1, 2):
                out.append({"k": "ents", "ver": ver, "ne": ne, "nf": nf})
        for un in (0, 1, 3):
            for lv in (0, 1, 3, 255):
                for force in (False, True):
                    out.append({"k": "head", "ver": ver, "un": un, "lv": lv, "force": force})
    for ver in (3, 4):
        for np in (4, 9):
            out.append({"k": "many", "ver": ver, "np": np})
    for ver in (1, 3, 4):
        for st in (0, 2, 5) + ((8, 10) if ver == 4 else ()):
            for n in (40, 300) if tier == "quick" else (40, 300, 1100):
                out.append({"k": "long", "ver": ver, "st": st, "n": n})
        for ne, nf in ((20, 1), (300, 0), (1, 300), (3, 40)):
            out.append({"k": "manyents", "ver": ver, "ne": ne, "nf": nf})
        for un in (255, 256, 300, 65535):
            out.append({"k": "head", "ver": ver, "un": un, "lv": 2, "force": False})
    out.append({"k": "two", "known": True})
    out.append({"k": "two", "known": False})
    out.append({"k": "lookup"})
    out.append({"k": "badv1", "np": 0})
    out.append({"k": "badv1", "np": 2})
    return out


def send(ctx, rep, known, off=0, force=False):
    buf = io.BytesIO()
    buf.write(b"\x5a" * off)
    w = DFWriter(buf, noclose=True)
    w.write_replay(rep, force_username=force)
    w.close()
    data = buf.getvalue()
    src = io.BytesIO(data)
    src.seek(off)
    rd = DFReader(src)
    return rd.read_replay(known_length=len(data) - off if known else None)


def both(ctx, rep, fn, off=0, force=False):
    for known in (False, True):
        fn(send(ctx, rep, known, off, force))


def run(ctx, case):
    k = case["k"]
    if k == "stream":
        ver, st, n = case["ver"], case["st"], case["n"]
        p = PlayerData(Character(3))
        want = [meaning(st, raw(ctx, "v%d" % i, st)) for i in range(n)]
        p.intents[IntentStream(st)] = list(want)
        others = {}
        for o in streams(ver):
            if o != st and o % 3 == 1:
                others[o] = [meaning(o, 2), meaning(o, 1)]
                p.intents[IntentStream(o)] = list(others[o])
        rep = Replay(ver, b"", b"lv", n, [p])

        def chk(got):
            ctx.check(got.version == ver and len(got.players) == 1 and got.frames == n, "header")
            check_intents(ctx, got.players[0], st, want, "player")
            for o in streams(4):
                if o != st:
                    check_intents(ctx, got.players[0], o, others.get(o, []), "player", 1)
        both(ctx, rep, chk)
        return
    if k == "run":
        st, n, pos = case["st"], case["n"], case["pos"]
        a, b, c = [meaning(st, raw(ctx, "v%d" % i, st)) for i in range(3)]
        z = meaning(st, 1 if st == 0 else 0)
        want = {"first": [a] * n + [b, c], "mid": [a] + [b] * n + [c], "last": [a, b] + [c] * n,
                "default_first": [z] * n + [a, b, c], "default_mid": [a] + [z] * n + [b],
                "only": [a] * n}[pos]
        p = PlayerData(Character(0), {IntentStream(st): list(want)})
        rep = Replay(4, b"", b"lv", len(want), [p])
        got = send(ctx, rep, True)
        g = got.players[0].intents.get(IntentStream(st), [])
        ctx.check(len(g) <= len(want), "extra frames")
        st_ = IntentStream(st)
        for i in list(range(0, 6)) + [j for j in range(len(want)) if j >= 6 and (j + 8) % 255 < 16] + list(range(len(want) - 5, len(want) + 2)):
            w = want[i] if 0 <= i < len(want) else z
            ctx.check(got.players[0].get_intent_value(st_, i) == w, "%s at frame %d" % (st_.name, i))
        for i in range(min(len(g), len(want))):
            ctx.check_eq(g[i], want[i], "%s value list" % st_.name)
        return
    if k == "players":
        ver, np = case["ver"], case["np"]
        ps, want = [], []
        for i in range(np):
            ch = ctx.enum("ch%d" % i, Character)
            a = [raw(ctx, "j%d.%d" % (i, j), 2) for j in range(2)]
            b = [raw(ctx, "l%d.%d" % (i, j), 6) for j in range(1)]
            ps.append(PlayerData(ch, {IntentStream.JUMP: list(a), IntentStream.HEAVY: list(b)}))
            want.append((ch, a, b))
        fr = ctx.u("fr", 32)
        e, n = frame(ctx, "e")
        uid = ctx.u("uid", 32)
        rep = Replay(ver, b"", b"", fr, ps, {uid: EntityData([e])})

        def chk(got):
            ctx.check(got.version == ver, "version")
            ctx.check(got.frames == fr, "frames")
            ctx.check(len(got.players) == np, "players")
            for i, (ch, a, b) in enumerate(want):
                ctx.check(got.players[i].character == ch, "character")
                check_intents(ctx, got.players[i], 2, a, "player %d" % i)
                check_intents(ctx, got.players[i], 6, b, "player %d" % i)
                check_intents(ctx, got.players[i], 0, [], "player %d" % i)
            ctx.check(len(got.entities) == 1, "entities")
            d = got.entities.get(uid)
            ctx.check(d is not None and len(d.frames) == 1, "entity")
            if d is not None and len(d.frames) == 1:
                check_frame(ctx, d.frames[0], n, "entity")
        both(ctx, rep, chk)
        return
    if k == "ents":
        ver, ne, nf = case["ver"], case["ne"], case["nf"]
        ents, want = {}, []
        for i in range(ne):
            uid = ctx.u("id%d" % i, 32)
            for w in want:
                ctx.assume(w[0] != uid)
            fs = [frame(ctx, "e%d.%d" % (i, j)) for j in range(nf if i == 0 else 1)]
            ents[uid] = EntityData([f[0] for f in fs])
            want.append((uid, [f[1] for f in fs]))
        rep = Replay(ver, b"", b"ab", 5, [PlayerData(Character(1), {IntentStream.DASH: [1, 2]})], ents)

        def chk(got):
            ctx.check(len(got.entities) == ne, "entity count")
            for uid, fs in want:
                d = got.entities.get(uid)
                ctx.check(d is not None, "entity id")
                if d is None:
                    continue
                ctx.check(len(d.frames) == len(fs), "frame count")
                for j, n in enumerate(fs[: len(d.frames)]):
                    check_frame(ctx, d.frames[j], n, "frame %d" % j)
            check_intents(ctx, got.players[0], 3, [1, 2], "player")
        both(ctx, rep, chk)
        return
    if k == "many":
        # many players, each with every stream of the version
        ver, np = case["ver"], case["np"]
        ps, want = [], []
        last = streams(ver)[-1]
        sym = {(0, 1, 0), (np - 1, 0, 0), (np - 1, last, (np - 1 + last) % 3), (np // 2, 5, 0)}
        for i in range(np):
            vals = {}
            for st in streams(ver):
                n = 1 + (i + st) % 3
                vals[st] = [meaning(st, raw(ctx, "v%d.%d" % (i, st), st) if (i, st, j) in sym else (i + st + j) % 3)
                            for j in range(n)]
            ch = Character((i * 3) % 5)
            ps.append(PlayerData(ch, {IntentStream(st): list(v) for st, v in vals.items()}))
            want.append((ch, vals))
        rep = Replay(ver, b"", b"lv", ctx.u("fr", 32), ps)

        def chk(got):
            ctx.check(len(got.players) == np, "players")
            for i, (ch, vals) in enumerate(want):
                ctx.check(got.players[i].character == ch, "character")
                for st in streams(4):
                    check_intents(ctx, got.players[i], st, vals.get(st, []), "player %d" % i)
        both(ctx, rep, chk)
        return
    if k == "long":
        # as many short runs as frames, so that the coded stream is long
        ver, st, n = case["ver"], case["st"], case["n"]
        want = [meaning(st, (i * 7 // 3) % 3) for i in range(n)]
        for j, i in enumerate((0, n // 2, n - 1)):
            want[i] = meaning(st, raw(ctx, "v%d" % j, st))
        p = PlayerData(Character(1), {IntentStream(st): list(want)})
        rep = Replay(ver, b"", b"lv", n, [p])

        def chk(got):
            check_intents(ctx, got.players[0], st, want, "player")
        both(ctx, rep, chk)
        return
    if k == "manyents":
        ver, ne, nf = case["ver"], case["ne"], case["nf"]
        ents, want = {}, []
        sym = {(0, 0), (ne - 1, nf - 1), (ne // 2, nf // 2)}
        for i in range(ne):
            fs = []
            for j in range(nf):
                if (i, j) in sym:
                    fs.append(frame(ctx, "e%d.%d" % (i, j)))
                else:
                    n = {"f": j * 50, "x": i * 10 - j, "y": -7 * j, "u": j - 100, "v": i}
                    fs.append((EntityFrame(n["f"], n["x"] / 10, n["y"] / 10, n["u"] / 100, n["v"] / 100), n))
            uid = (i * 2654435761 + 7) % (1 << 32)
            ents[uid] = EntityData([f[0] for f in fs])
            want.append((uid, [f[1] for f in fs]))
        rep = Replay(ver, b"", b"ab", 5, [PlayerData(Character(1), {IntentStream.DASH: [1, 2]})], ents)

        def chk(got):
            ctx.check(len(got.entities) == ne, "entity count")
            for uid, fs in want:
                d = got.entities.get(uid)
                ctx.check(d is not None and len(d.frames) == len(fs), "entity frames")
                for j, n in enumerate(fs[: len(d.frames)] if d is not None else []):
                    check_frame(ctx, d.frames[j], n, "frame %d" % j)
        both(ctx, rep, chk)
        return
    if k == "head":
        ver, force = case["ver"], case["force"]
        un, lv = ctx.bytes("un", min(case["un"], 300)), ctx.bytes("lv", min(case["lv"], 4))
        lv = lv + b"x" * (case["lv"] - len(lv))
        un = un + b"y" * (case["un"] - len(un))
        fr = ctx.u("fr", 32)
        rep = Replay(ver, un, lv, fr, [PlayerData(ctx.enum("ch", Character), {})])

        def chk(got):
            ctx.check(got.version == ver, "version")
            ctx.check(got.username == un, "user name")
            ctx.check(got.level == lv, "level name")
            ctx.check(got.frames == fr, "frames")
            ctx.check(len(got.players) == 1, "players")
            ctx.check(not got.entities, "entities")
            for st in range(11):
                check_intents(ctx, got.players[0], st, [], "player", 1)
        both(ctx, rep, chk, 3 if case["un"] == 1 else 0, force)
        return
    if k == "two":
        buf = io.BytesIO()
        w = DFWriter(buf, noclose=True)
        want = []
        for i in range(2):
            vals = [raw(ctx, "r%d.%d" % (i, j), 5) for j in range(2)]
            un = ctx.bytes("un%d" % i, i)
            fr = ctx.u("fr%d" % i, 32)
            w.write_replay(Replay((4, 3)[i], un, b"l%d" % i, fr, [PlayerData(Character(i), {IntentStream.LIGHT: list(vals)})]))
            want.append((vals, un, fr, w.bit_tell() // 8))
        w.close()
        rd = DFReader(io.BytesIO(buf.getvalue()))
        start = 0
        for i, (vals, un, fr, end) in enumerate(want):
            got = rd.read_replay(known_length=(end - start) if case["known"] else None)
            ctx.check(rd.bit_tell() == 8 * end, "stops at the end of the replay")
            start = end
            ctx.check(got.version == (4, 3)[i] and got.username == un and got.level == b"l%d" % i and got.frames == fr, "header")
            ctx.check(got.players[0].character == i, "character")
            check_intents(ctx, got.players[0], 5, vals, "player")
        return
    if k == "lookup":
        ents = {i: EntityData() for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)}
        rep = Replay(4, b"", b"", 0, [PlayerData() for _ in range(4)], ents)
        i = ctx.int("player", 1, 4)
        ctx.check(rep.get_player_entity_data(i) is ents[2 * ctx.concrete(i)], "player entity")
        ctx.check(rep.get_camera_entity_data(i) is ents[2 * ctx.concrete(i) + 1], "camera entity")
        ctx.check(rep.get_player_entity_data() is ents[2], "first player")
        ctx.check(rep.get_camera_entity_data() is ents[3], "first camera")
        return
    from dustmaker.exceptions import LevelParseException

    rep = Replay(1, b"", b"", 0, [PlayerData() for _ in range(case["np"])])
    try:
        send(ctx, rep, True)
        ok = False
    except LevelParseException:
        ok = True
    ctx.check(ok, "version 1 replays hold exactly one player")
