"""Building, snapshotting and comparing replays with arbitrary field values."""

from dustmaker.replay import Character, EntityData, EntityFrame, IntentStream, MouseState, PlayerData, Replay

# bits per stream, first replay version that has it, neutral value; from the format documentation
BITS = (2, 2, 2, 2, 2, 4, 4, 4, 16, 16, 8)
SINCE = (1, 1, 1, 1, 1, 1, 1, 3, 4, 4, 4)
NEUTRAL = (0, 0, 0, 0, 0, 0, 0, 0, 0.0, 0.0, 0)


def streams(version):
    return [i for i in range(11) if SINCE[i] <= version]


def raw(ctx, name, stream):
    """An arbitrary stored value of a stream."""
    if stream in (8, 9):
        return ctx.int(name, 0, 65535)
    return ctx.u(name, BITS[stream])


def meaning(stream, v):
    """The documented meaning of a stored value."""
    if stream in (0, 1):
        return v - 1
    if stream in (8, 9):
        return v / 32767
    if stream == 10:
        return MouseState(v)
    return v


def neutral_raw(stream):
    return 1 if stream in (0, 1) else 0


def frame(ctx, name):
    n = {"f": ctx.u(name + ".f", 32)}
    for k in ("x", "y", "u", "v"):
        n[k] = ctx.s(name + "." + k, 32)
    return EntityFrame(n["f"], n["x"] / 10, n["y"] / 10, n["u"] / 100, n["v"] / 100), n


def check_frame(ctx, got, n, msg):
    ctx.check(got.frame == n["f"], msg + ": frame")
    ctx.check(got.x_pos == n["x"] / 10, msg + ": x position")
    ctx.check(got.y_pos == n["y"] / 10, msg + ": y position")
    ctx.check(got.x_speed == n["u"] / 100, msg + ": x speed")
    ctx.check(got.y_speed == n["v"] / 100, msg + ": y speed")


def check_intents(ctx, got, stream, want, msg, extra=2):
    """Frame by frame, including frames past the end, which are neutral."""
    st = IntentStream(stream)
    for i in range(len(want) + extra):
        w = want[i] if i < len(want) else NEUTRAL[stream]
        ctx.check(got.get_intent_value(st, i) == w, "%s: %s at frame %d" % (msg, st.name, i))
    ctx.check(len(got.intents.get(st, [])) <= len(want), "%s: %s has extra frames" % (msg, st.name))
