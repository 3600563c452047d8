"""C13: level-wide data and mixed content survive writing and reading."""

import io

from checks import levels as L
from checks.common import long_bytes
from checks.vars import build_map, check_map
from dustmaker.dfreader import DFReader, read_level
from dustmaker.dfwriter import DFWriter, write_level
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.tile import Tile, TileShape

BOUNDS = {
    "quick": "variable maps of 0..3 entries chosen so that the directory starts at each of the 8 bit alignments, all "
    "leaf values arbitrary; thumbnails of 0, 1, 3, 255, 256 and 300 arbitrary bytes and of 4097..100003 with 60 arbitrary; 0..3, 5, 20, 300 "
    "regions; tile, prop, entity, backdrop "
    "tile and backdrop prop together in one region or spread over several; level starting at byte 0 or 5 of the "
    "stream; two levels in one stream",
    "thorough": "as quick with thumbnails of 0..11 bytes and more stream offsets",
}
OUTSIDE = "zlib replaced by an identity codec"

# m booleans with one character names put the region directory at bit alignment (4 + 17m) mod 8: all eight
MAPS = {m: [["abcdefgh"[i], "b"] for i in range(m)] for m in range(8)}
MAPS[1] = [[1, "b"]]
MAPS[8] = [[2, "i"], ["ab", "s2"], [1, "f"]]
MAPS[9] = [["name", ["a", "s", ["s1", "s2"]]]]
MAPS[10] = [[1, "f"], ["x", ["t", [[1, "b"]]]], [2, "u"]]
MAPS[11] = [[1, "b"], ["v", "v"], [2, "b"], ["q", "b"]]


def cases(tier):
    out = []
    for m in MAPS:
        for ss in (0, 1, 3, 17) if tier == "quick" else range(12):
            for n in (0, 1, 2, 3):
                for off in (0, 5) if tier == "quick" else (0, 1, 5, 6):
                    out.append({"k": "meta", "m": m, "ss": ss, "n": n, "off": off})
    out.append({"k": "meta", "m": 3, "ss": 300, "n": 3, "off": 0})
    for n in (5, 20, 300):
        out.append({"k": "meta", "m": n % 8, "ss": 2, "n": n, "off": 0})
    for m, n_ss in ((2, 255), (4, 256), (7, 4097), (8, 65535), (1, 65536), (6, 100003)):
        out.append({"k": "meta", "m": m, "ss": n_ss, "n": 1, "off": 0})
    for spread in (0, 1, 2):
        for m in (0, 1, 4, 8):
            out.append({"k": "mixed", "spread": spread, "m": m})
    out.append({"k": "two"})
    out.append({"k": "plain"})
    return out


def fill(ctx, lev, name, spread):
    """Put one of everything into the level; returns the expectations."""
    d = 256 * 16 * 3
    places = {0: [(3, 4)] * 5, 1: [(3, 4), (3, 300), (-5, 4), (700, -9), (3, 4)],
              2: [(3, 4), (1003, -2000), (3, 4), (-5, 4), (20000, 7)]}[spread]
    t = L.tile(ctx, name + "t", full=False)
    b = L.tile(ctx, name + "b", full=False)
    p = L.prop(ctx, name + "p")
    q = L.prop(ctx, name + "q")
    e = L.entity(ctx, name + "e", None, Entity, "z_thing")
    w = {"t": (19, places[0][0], places[0][1]), "b": (7, places[3][0] // 16, places[3][1] // 16)}
    lev.tiles[w["t"]] = t
    lev.backdrop.tiles[w["b"]] = b
    px, py = ctx.int(name + "px", 0, 767), ctx.int(name + "py", 0, 767)
    w["p"] = (4, places[1][0] * 48 // 768 * 768 + px, places[1][1] * 48 // 768 * 768 + py)
    w["e"] = (places[2][0] * 48 + 0.25, places[2][1] * 48 - 0.5)
    w["q"] = (2, places[4][0] * 48, places[4][1] * 48)
    ids = [ctx.u(name + "id%d" % i, 31) for i in range(3)]
    lev.add_prop(4, w["p"][1] / 1, w["p"][2] / 1, p, ids[0])
    lev.add_entity(w["e"][0], w["e"][1], e, ids[1])
    lev.backdrop.add_prop(2, float(w["q"][1]), float(w["q"][2]), q, ids[2])
    w["ids"] = ids
    w["ts"], w["bs"] = L.snap_tile(t), L.snap_tile(b)
    w["ps"], w["qs"], w["es"] = L.snap_prop(p), L.snap_prop(q), L.snap_entity(e)
    return w


def check_filled(ctx, got, w):
    ctx.check(len(got.tiles) == 1 and len(got.props) == 1 and len(got.entities) == 1, "foreground counts")
    ctx.check(len(got.backdrop.tiles) == 1 and len(got.backdrop.props) == 1, "backdrop counts")
    ctx.check(len(got.backdrop.entities) == 0, "backdrop entities")
    t = got.tiles.get(w["t"])
    ctx.check(t is not None, "tile place")
    if t is not None:
        L.check_tile(ctx, t, w["ts"], "tile", filth_too=False)
    b = got.backdrop.tiles.get(w["b"])
    ctx.check(b is not None, "backdrop tile place")
    if b is not None:
        L.check_tile(ctx, b, w["bs"], "backdrop tile", filth_too=False)
    for lev, key, snap, idn in ((got, "p", "ps", w["ids"][0]), (got.backdrop, "q", "qs", w["ids"][2])):
        r = lev.props.get(idn)
        ctx.check(r is not None, "prop id")
        if r is not None:
            ctx.check(r[0] == w[key][0] and r[1] == w[key][1] and r[2] == w[key][2], "prop place")
            L.check_prop(ctx, r[3], w[snap], "prop")
    r = got.entities.get(w["ids"][1])
    ctx.check(r is not None, "entity id")
    if r is not None:
        ctx.check(r[0] == w["e"][0] and r[1] == w["e"][1], "entity place")
        L.check_entity(ctx, r[2], w["es"], "entity")


def check_extent(ctx, data, start, end, n, msg):
    """The level between the two byte positions says how long it is and where its regions are."""
    src = io.BytesIO(data)
    src.seek(start)
    rd = DFReader(src)
    lev, offsets = rd.read_level_ex()
    at = rd.bit_tell()
    ctx.check(at + 8 * offsets[-1] == 8 * end, msg + ": recorded size")
    ctx.check(len(offsets) == n + 1, msg + ": number of regions")
    # the regions follow each other where the directory says
    for i in range(n):
        ctx.check(rd.bit_tell() == at + 8 * offsets[i], msg + ": region offset")
        rd.read_region(lev)
    ctx.check(rd.bit_tell() == 8 * end, msg + ": end of the regions")


def run(ctx, case):
    k = case["k"]
    if k == "plain":
        # convenience functions
        lev = Level()
        lev.variables, refs = build_map(ctx, MAPS[9], "v")
        lev.sshot = ctx.bytes("ss", 4)
        ss = lev.sshot
        w = fill(ctx, lev, "a", 0)
        got = read_level(write_level(lev))
        ctx.check(got.sshot == ss, "thumbnail")
        check_map(ctx, got.variables, refs, "variables")
        check_filled(ctx, got, w)
        return
    if k == "two":
        buf = io.BytesIO()
        wr = DFWriter(buf, noclose=True)
        want, ends = [], [0]
        for i in range(2):
            lev = Level()
            lev.variables, refs = build_map(ctx, MAPS[10 + i], "v%d" % i)
            lev.sshot = ctx.bytes("ss%d" % i, 2 + i)
            w = fill(ctx, lev, "a%d" % i, i)
            want.append((lev.sshot, refs, w))
            wr.write_level(lev)
            ends.append(wr.bit_tell() // 8)
        wr.close()
        rd = DFReader(io.BytesIO(buf.getvalue()))
        for ss, refs, w in want:
            got = rd.read_level()
            ctx.check(got.sshot == ss, "thumbnail")
            check_map(ctx, got.variables, refs, "variables")
            check_filled(ctx, got, w)
        for i, n in enumerate((1, 4)):
            check_extent(ctx, buf.getvalue(), ends[i], ends[i + 1], n, "level %d" % i)
        return
    lev = Level()
    lev.variables, refs = build_map(ctx, MAPS[case["m"]], "v")
    n_ss = case.get("ss", 2)
    lev.sshot = ctx.bytes("ss", n_ss) if n_ss <= 300 else long_bytes(ctx, "ss", n_ss, 60)
    ss = lev.sshot
    off = case.get("off", 0)
    buf = io.BytesIO()
    pre = b"\x11" * off
    buf.write(pre)
    wr = DFWriter(buf, noclose=True)
    if k == "mixed":
        w = fill(ctx, lev, "a", case["spread"])
    else:
        keys = []
        for i in range(case["n"]):
            if i < 3 or i == case["n"] - 1:
                t = L.tile(ctx, "t%d" % i, shape=(3 + i) % 20, full=False)
            else:
                t = Tile(TileShape(i % 20), sprite_tile=i % 30, sprite_palette=i % 5)
            key = (5, (1 - i) * 256 + 3, i * 700 % 7000)
            lev.tiles[key] = t
            keys.append((key, L.snap_tile(t)))
    wr.write_level(lev)
    end = wr.bit_tell()
    wr.close()
    data = buf.getvalue()
    ctx.check(end == 8 * len(data), "writer left at the end of the level")
    ctx.check(data[:off] == pre, "bytes before the level changed")
    src = io.BytesIO(data)
    src.seek(off)
    rd = DFReader(src)
    got = rd.read_level()
    ctx.check(got.sshot == ss, "thumbnail")
    check_map(ctx, got.variables, refs, "variables")
    if k == "mixed":
        check_filled(ctx, got, w)
    else:
        ctx.check(len(got.tiles) == len(keys), "tiles")
        ctx.check(not got.props and not got.entities and not got.backdrop.tiles and not got.backdrop.props, "extra content")
        for key, snap in keys:
            t = got.tiles.get(key)
            ctx.check(t is not None, "tile place")
            if t is not None:
                L.check_tile(ctx, t, snap, "tile", filth_too=False)
    src = io.BytesIO(data)
    src.seek(off)
    if k == "meta" and case["n"] < 20 and case["ss"] <= 300:
        check_extent(ctx, data, off, len(data), case["n"], "level")
    src = io.BytesIO(data)
    src.seek(off)
    meta = DFReader(src).read_level(metadata_only=True)
    ctx.check(meta.sshot == ss, "thumbnail (metadata only)")
    check_map(ctx, meta.variables, refs, "variables (metadata only)")
    ctx.check(not meta.tiles and not meta.props and not meta.entities, "metadata only reads no content")
