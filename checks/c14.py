"""C14: metadata-only rewriting keeps the region data byte for byte."""

import io

from checks import levels as L
from checks.c13 import MAPS, check_filled, fill
from checks.common import long_bytes, raises
from checks.vars import build_map, check_map
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.exceptions import LevelParseException
from dustmaker.level import Level

BOUNDS = {
    "quick": "0..3 regions with arbitrary 32 bit directory entries and 0..40 arbitrary opaque bytes "
    "(up to 300 regions and 140000 bytes, thumbnails up to 65536 bytes, with the middle parts fixed); old and new variable "
    "maps at every pair of the 8 directory alignments, arbitrary leaf values; old and new thumbnails of 0..4 arbitrary "
    "bytes; region data given as bytes or in pieces; wrong amounts of data; real levels with mixed content in one or "
    "several regions; levels starting at byte 0 or 3 of the stream",
    "thorough": "every combination of the above dimensions",
}
OUTSIDE = "still larger opaque data (never inspected by the code)"


def cases(tier):
    out = []
    for a in range(8):
        for b in range(8):
            if tier == "quick":
                out.append({"k": "raw", "a": a, "b": b, "n": (a + b) % 4, "len": (0, 1, 7, 40)[(a + 3 * b) % 4],
                            "ss": [a % 4, b % 5], "pieces": (a + b) % 3, "off": 3 * (a & 1)})
            else:
                for n in range(4):
                    for ln in (0, 1, 40):
                        out.append({"k": "raw", "a": a, "b": b, "n": n, "len": ln, "ss": [a % 4, b % 5],
                                    "pieces": (a + b + n) % 3, "off": 3 * (ln & 1)})
    for a, b in ((1, 8), (9, 2), (10, 11), (0, 10)):
        out.append({"k": "raw", "a": a, "b": b, "n": 2, "len": 9, "ss": [2, 3], "pieces": 1, "off": 0})
    for i, (n, ln) in enumerate(((40, 300), (300, 41), (2, 4096), (3, 65535), (1, 65536), (2, 70001), (70, 140000))):
        for a in (i % 8, (i + 3) % 8):
            out.append({"k": "raw", "a": a, "b": (i * 5 + 2) % 8, "n": n, "len": ln, "ss": [i % 3, (0, 256, 65536)[i % 3]],
                        "pieces": i % 2, "off": 0})
    for spread in (0, 1, 2):
        for a, b in ((0, 1), (3, 8), (7, 4)):
            out.append({"k": "real", "spread": spread, "a": a, "b": b})
    for m in (3, 4):
        for a, b in ((0, 1), (3, 5), (7, 2)):
            for ln in (0, 1, 30):
                out.append({"k": "raw", "a": a, "b": b, "n": a % 4, "len": ln, "ss": [1, 2], "pieces": m, "off": 0})
    for d in (-2, -1, 1, 5):
        out.append({"k": "amount", "d": d, "pieces": d % 2})
    out.append({"k": "drop"})
    return out


def pieces(mode, blob):
    if mode == 0:
        return blob
    if mode == 1:
        step = 3 if len(blob) < 64 else len(blob) // 5
        return [blob[i:i + step] for i in range(0, len(blob), step)]
    if mode == 3:
        # empty pieces anywhere
        return [b"", blob[:5], b"", b"", blob[5:6], blob[6:], b""]
    if mode == 4:
        return iter((blob[:2], blob[2:2], blob[2:]))
    return (blob[i:i + 1] for i in range(len(blob)))


def write_ex(level, offsets, data, off=0):
    buf = io.BytesIO()
    buf.write(b"\x77" * off)
    w = DFWriter(buf, noclose=True)
    w.write_level_ex(level, offsets, data)
    w.close()
    return buf.getvalue()[off:]


def read_ex(data, off=0):
    src = io.BytesIO(b"\x77" * off + data)
    src.seek(off)
    r = DFReader(src)
    lev, offsets = r.read_level_ex()
    blob = r.read_bytes(offsets[-1])
    ctx_end = r.bit_tell()
    return lev, offsets, blob, ctx_end - 8 * off


def same_offsets(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg + ": number of regions")
    if len(got) == len(want):
        for g, w in zip(got, want):
            ctx.check(g == w, msg + ": region offset")


def run(ctx, case):
    k = case["k"]
    if k == "amount":
        blob = ctx.bytes("blob", 12)
        lev = Level()
        w = DFWriter(io.BytesIO())
        got = raises(lambda: w.write_level_ex(lev, [0, 5, 12 + case["d"]], pieces(case["pieces"], blob)), LevelParseException)
        ctx.check(got is not None, "wrong amount of region data accepted")
        return
    if k == "drop":
        lev = Level()
        lev.variables, refs = build_map(ctx, MAPS[8], "v")
        lev.sshot = ctx.bytes("ss", 2)
        ss = lev.sshot
        fill(ctx, lev, "a", 1)
        data = write_ex(lev, [0], b"")
        got, offsets, blob, end = read_ex(data)
        same_offsets(ctx, offsets, [0], "omitted")
        ctx.check(len(blob) == 0 and end == 8 * len(data), "region data left out")
        full = L.level_from(data)
        ctx.check(not full.tiles and not full.props and not full.entities, "no content left")
        ctx.check(full.sshot == ss, "thumbnail kept")
        check_map(ctx, full.variables, refs, "variables kept")
        return
    if k == "real":
        lev = Level()
        lev.variables, refs = build_map(ctx, MAPS[case["a"]], "v")
        lev.sshot = ctx.bytes("ss", 2)
        w = fill(ctx, lev, "a", case["spread"])
        data = L.level_bytes(lev)
        got, offsets, blob, end = read_ex(data)
        ctx.check(end == 8 * len(data), "region data ends the file")
        got.variables, refs2 = build_map(ctx, MAPS[case["b"]], "w")
        got.sshot = ctx.bytes("st", 5)
        ss2 = got.sshot
        data2 = write_ex(got, offsets, blob)
        lev3, offsets3, blob3, end3 = read_ex(data2)
        same_offsets(ctx, offsets3, offsets, "rewritten")
        ctx.check(blob3 == blob, "region bytes changed")
        ctx.check(end3 == 8 * len(data2), "size of the rewritten file")
        full = L.level_from(data2)
        check_filled(ctx, full, w)
        ctx.check(full.sshot == ss2, "new thumbnail")
        check_map(ctx, full.variables, refs2, "new variables")
        return
    off = case["off"]
    blob = ctx.bytes("blob", case["len"]) if case["len"] <= 64 else long_bytes(ctx, "blob", case["len"])
    n = case["n"]
    offsets = [0] * n + [case["len"]]
    for i in range(1, n):
        offsets[i] = ctx.u("o%d" % i, 32) if i < 4 or i == n - 1 else i * 77777
    if n > 1:
        offsets[0] = ctx.u("o0", 32)
    lev = Level()
    lev.variables, refs = build_map(ctx, MAPS[case["a"]], "v")
    lev.sshot = ctx.bytes("ss", case["ss"][0])
    ss = lev.sshot
    data = write_ex(lev, list(offsets), pieces(case["pieces"], blob), off)
    got, offs2, blob2, end = read_ex(data, off)
    ctx.check(end == 8 * len(data), "declared size is the true size")
    same_offsets(ctx, offs2, offsets, "first write")
    ctx.check(blob2 == blob, "region bytes after the first write")
    ctx.check(got.sshot == ss, "thumbnail")
    check_map(ctx, got.variables, refs, "variables")
    got.variables, refs2 = build_map(ctx, MAPS[case["b"]], "w")
    got.sshot = long_bytes(ctx, "st", case["ss"][1])
    ss2 = got.sshot
    data2 = write_ex(got, offs2, blob2, off)
    lev3, offs3, blob3, end3 = read_ex(data2, off)
    ctx.check(end3 == 8 * len(data2), "declared size after the rewrite")
    same_offsets(ctx, offs3, offsets, "rewrite")
    ctx.check(blob3 == blob, "region bytes after the rewrite")
    ctx.check(lev3.sshot == ss2, "new thumbnail")
    check_map(ctx, lev3.variables, refs2, "new variables")
