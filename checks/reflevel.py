"""Reference encoder/decoder of the level container, written from the format."""

import zlib

from checks import ref


def field(data, pos, n):
    """Unsigned field of n bits at bit position pos."""
    v = 0
    k = 0
    while k < n:
        b = data[(pos + k) // 8]
        off = (pos + k) % 8
        take = min(8 - off, n - k)
        v = v + (((b >> off) & ((1 << take) - 1)) << k)
        k += take
    return v


def u16(v):
    return v & 0xFFFF


class Cursor:
    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def u(self, n):
        v = field(self.data, self.pos, n)
        self.pos += n
        return v

    def bytes(self, n):
        if self.pos % 8 == 0:
            out = self.data[self.pos // 8:self.pos // 8 + n]
            self.pos += 8 * n
            return out
        return bytes([self.u(8) for _ in range(n)])


def tile_record(b, x, y, snap):
    """Tile entry: position, shape, flags, 12 bytes of edge and sprite data."""
    b.put(5, x)
    b.put(5, y)
    b.put(5, snap["shape"])
    b.put(3, snap["tile_flags"])
    es = snap["edges"]
    for e in es:
        b.put(1, e[0])
    for e in es:
        b.put(1, e[1])
    # corner data runs left to right / top to bottom in the file, so the
    # clockwise pairs of the bottom and left sides are reversed
    for i, e in enumerate(es):
        a, c = e[2]
        if i in (1, 2):
            a, c = c, a
        b.put(1, a)
        b.put(1, c)
    for i, e in enumerate(es):
        a, c = e[3]
        if i in (1, 2):
            a, c = c, a
        b.put(8, a)
        b.put(8, c)
    b.put(4, snap["sprite_set"])
    b.put(4, snap["sprite_palette"])
    b.put(8, snap["sprite_tile"])


def dust_record(b, x, y, snap):
    b.put(5, x)
    b.put(5, y)
    es = snap["edges"]
    for e in es:
        b.put(3, e[4])
        b.put(1, e[5])
    for i, e in enumerate(es):
        a, c = e[7]
        if i in (1, 2):
            a, c = c, a
        b.put(8, a)
        b.put(8, c)
    for i, e in enumerate(es):
        a, c = e[6]
        if i in (1, 2):
            a, c = c, a
        b.put(1, a)
        b.put(1, c)
    b.put(8, 0)


def prop_record(b, idn, layer, x, y, lg, snap):
    """x, y whole pixels; lg the logarithmic size step 0..55"""
    b.put(32, idn)
    b.put(8, layer)
    b.put(8, snap["layer_sub"])
    b.put(1, 1 if x < 0 else 0)
    b.put(27, -x if x < 0 else x)
    b.put(4, (lg // 7) ^ 4)
    b.put(1, 1 if y < 0 else 0)
    b.put(27, -y if y < 0 else y)
    b.put(4, (lg % 7) ^ 4)
    b.put(16, snap["rotation"])
    b.put(1, snap["flip_x"])
    b.put(1, snap["flip_y"])
    b.put(8, snap["prop_set"])
    b.put(12, snap["prop_group"])
    b.put(12, snap["prop_index"])
    b.put(8, snap["palette"])


def entity_record(b, idn, name, nx, ny, snap, refs):
    """nx, ny in 1/128 pixels; name as stored in line"""
    b.put(32, idn)
    ref.enc_6bit(b, name)
    ref.enc_fixed(b, 32, 8, nx)
    ref.enc_fixed(b, 32, 8, ny)
    b.put(16, snap["rotation"])
    b.put(8, snap["layer"])
    b.put(1, not snap["flip_x"])
    b.put(1, not snap["flip_y"])
    b.put(1, snap["visible"])
    ref.enc_var(b, (ref.STRUCT, refs))


def segment_body(seg):
    """Bits following the fixed header of a segment.

    seg: {"tiles": [(layer, [(x, y, snap)])], "dust": [(x, y, snap)],
          "props": [(id, layer, x, y, lg, snap)],
          "ents": [(id, name, nx, ny, snap, refs)]}; returns (flags, Bits)
    """
    b = ref.Bits()
    b.n = 200
    flags = 0
    if seg.get("tiles"):
        flags += 1
        b.put(8, len(seg["tiles"]))
        for layer, lst in seg["tiles"]:
            b.put(8, layer)
            b.put(10, len(lst))
            for x, y, snap in lst:
                tile_record(b, x, y, snap)
    if seg.get("dust"):
        flags += 2
        b.put(10, len(seg["dust"]))
        for x, y, snap in seg["dust"]:
            dust_record(b, x, y, snap)
    if seg.get("props"):
        flags += 8
        b.put(16, len(seg["props"]))
        for rec in seg["props"]:
            prop_record(b, *rec)
    if seg.get("ents"):
        flags += 4
        b.put(16, len(seg["ents"]))
        extra = ref.Bits()
        for idn, name, nx, ny, snap, refs in seg["ents"]:
            stored = name
            if name.startswith("z_") or name == "entity":
                stored = "entity"
                ref.enc_6bit(extra, name)
            entity_record(b, idn, stored, nx, ny, snap, refs)
        start = b.n
        b.bytes(extra.done())
        b.align()
        b.put(32, b.n - start)
    b.align()
    return flags, b


def check_level(ctx, data, want):
    """want: refs (variables), sshot, next_id, regions in file order
    [(rx, ry, [(sx, sy, seg)...], backdrop seg or None)]"""
    c = Cursor(data)
    ctx.check(c.bytes(6) == b"DF_LVL", "file identifier")
    ctx.check(c.u(16) == 44, "format version")
    ctx.check(c.u(32) == len(data), "file size")
    nreg = c.u(32)
    ctx.check(nreg == len(want["regions"]), "number of regions")
    ctx.check(c.bytes(6) == b"DF_MTD", "metadata identifier")
    ctx.check(c.u(16) == 4, "metadata version")
    ctx.check(c.u(32) == 0, "metadata region offset")
    uid = c.u(32)
    if want.get("next_id") is not None:
        ctx.check(uid >= want["next_id"], "next free id exceeds every id")
    ctx.check(c.u(32) == 0 and c.u(32) == 0 and c.u(32) == 0, "unused metadata")
    ctx.check(c.u(32) == len(want["sshot"]), "thumbnail length")
    ctx.check(c.bytes(len(want["sshot"])) == want["sshot"], "thumbnail bytes")
    vb = ref.Bits()
    ref.enc_var(vb, (ref.STRUCT, want["refs"]))
    offs_at = c.pos + vb.n
    for i in range(len(want["regions"])):
        vb.put(32, 0)
    vb.align()
    nvb = vb.n // 8
    start = c.pos // 8 + nvb
    # the directory holds the byte offset of each region from the end of the directory
    pos = start
    for i, (rx, ry, segs, back) in enumerate(want["regions"]):
        off = field(data, offs_at + 32 * i, 32)
        ctx.check(off == pos - start, "directory entry of region %d" % i)
        vb.patch(offs_at - c.pos + 32 * i, 32, off)
        r = Cursor(data, 8 * pos)
        rlen = ctx.concrete(r.u(32))
        ulen = r.u(32)
        ctx.check(r.u(16) == u16(rx) and r.u(16) == u16(ry), "region coordinates")
        ctx.check(r.u(16) == 14, "region version")
        ctx.check(r.u(16) == len(segs), "number of segments")
        ctx.check(r.u(8) == (1 if back is not None else 0), "backdrop flag")
        raw = zlib.decompress(r.bytes(rlen - 17))
        ctx.check(ulen == len(raw), "uncompressed length")
        todo = list(segs) + ([(0, 0, back)] if back is not None else [])
        at = 0
        for sx, sy, seg in todo:
            flags, body = segment_body(seg)
            size = body.n // 8
            ctx.check(len(raw) >= at + size, "segment present")
            h = Cursor(raw, 8 * at)
            ctx.check(h.u(32) == size, "segment size")
            ctx.check(h.u(16) == 8, "segment version")
            ctx.check(h.u(8) == sx and h.u(8) == sy, "segment coordinates")
            ctx.check(h.u(8) == 16, "segment width")
            ctx.check(h.u(32) == 0, "level id")
            counts = [h.u(16) for _ in range(4)]
            if seg.get("counts") is not None:
                for got, w, name in zip(counts, seg["counts"], ("filth", "enemy filth", "surface", "dust block")):
                    ctx.check(got == w, name + " count of the segment")
            ctx.check(h.u(32) == flags, "segment flags")
            cells = body.done()
            ctx.check(raw[at + 25:at + size] == cells[25:], "segment content")
            at += size
        ctx.check(at == len(raw), "nothing after the last segment")
        pos += rlen
    ctx.check(pos == len(data), "nothing after the last region")
    ctx.check(data[c.pos // 8:start] == vb.done(), "variables")
