"""Reference encoder of complete level files in every version, including the
freedoms of the format that dustmaker's own writer never uses."""

import zlib

from checks import ref
from checks.reflevel import dust_record, entity_record, prop_record, tile_record


def old_prop_record(b, idn, layer, nx, ny, snap):
    """Props before segment version 7: fixed point positions (1/8 pixels), no size."""
    b.put(32, idn)
    b.put(8, layer)
    b.put(8, snap["layer_sub"])
    ref.enc_fixed(b, 28, 4, nx)
    ref.enc_fixed(b, 28, 4, ny)
    b.put(16, snap["rotation"])
    b.put(1, snap["flip_x"])
    b.put(1, snap["flip_y"])
    b.put(8, snap["prop_set"])
    b.put(12, snap["prop_group"])
    b.put(12, snap["prop_index"])
    b.put(8, snap["palette"])


def segment(seg):
    """seg: version, x, y, and optionally tiles [(layer, [(x, y, snap)])],
    dust [(x, y, snap)], props, old_props, ents [(id, stored, full, nx, ny, snap, refs)],
    hidden (ids of removed props), junk (values for the ignored fields), slack (bytes at the end)"""
    ver = seg["version"]
    junk = seg.get("junk", {})
    b = ref.Bits()
    b.put(32, 0)
    b.put(16, ver)
    b.put(8, seg["x"])
    b.put(8, seg["y"])
    b.put(8, junk.get("width", 16))
    if ver > 4:
        b.put(32, junk.get("uid", 0))
        b.put(16, junk.get("dust", 0))
        b.put(16, junk.get("enemy", 0))
    if ver > 5:
        b.put(16, junk.get("surface", 0))
        b.put(16, junk.get("block", 0))
    flags = seg.get("flags", 0)
    for bit, key in ((1, "tiles"), (2, "dust"), (4, "ents"), (8, "props")):
        if key in seg:
            flags = flags + bit
    b.put(32, flags)
    if "tiles" in seg:
        b.put(8, len(seg["tiles"]))
        for layer, lst in seg["tiles"]:
            b.put(8, layer)
            b.put(10, len(lst))
            for x, y, snap in lst:
                tile_record(b, x, y, snap)
    if "dust" in seg:
        b.put(10, len(seg["dust"]))
        for x, y, snap in seg["dust"]:
            dust_record(b, x, y, snap)
    if "props" in seg:
        b.put(16, len(seg["props"]))
        for rec in seg["props"]:
            if len(rec) == 1:
                b.put(32, rec[0])
            elif rec[0] == "old":
                old_prop_record(b, *rec[1:])
            else:
                prop_record(b, *rec)
    if "ents" in seg:
        b.put(16, len(seg["ents"]))
        extra = ref.Bits()
        n = 0
        for rec in seg["ents"]:
            if len(rec) == 1:
                b.put(32, rec[0])
                continue
            idn, stored, full, nx, ny, snap, refs = rec
            entity_record(b, idn, stored, nx, ny, snap, refs)
            if stored == "entity" and ver > 7:
                ref.enc_6bit(extra, full)
                n += 1
        if n:
            for _ in range(seg.get("slack", 0)):
                b.put(8, 0xA5)
            start = b.n
            b.bytes(extra.done())
            b.align()
            b.put(32, b.n - start)
        else:
            for _ in range(seg.get("slack", 0)):
                b.put(8, 0xA5)
    else:
        for _ in range(seg.get("slack", 0)):
            b.put(8, 0xA5)
    b.align()
    b.patch(0, 32, b.n // 8)
    return b.done()


def level(version=44, regions=(), refs=(), sshot=b"", uid=1000, junk=None, magic=b"DF_LVL", mtd=b"DF_MTD"):
    """regions: [{"x", "y", "segs": [...], "back": seg or absent, "junk": {...}}]"""
    junk = junk or {}
    b = ref.Bits()
    b.bytes(magic)
    b.put(16, version)
    b.put(32, 0)
    b.put(32, len(regions))
    b.bytes(mtd)
    b.put(16, junk.get("mtd_version", 4))
    b.put(32, junk.get("region_offset", 0))
    b.put(32, uid)
    for k in ("prop_uid", "save_uid", "region_uid"):
        b.put(32, junk.get(k, 0))
    if sshot is not None:
        b.put(32, len(sshot))
        b.bytes(sshot)
    ref.enc_var(b, (ref.STRUCT, list(refs)))
    dir_at = b.n
    for _ in regions:
        b.put(32, 0)
    b.align()
    head = b.n // 8
    blobs = []
    at = 0
    for i, r in enumerate(regions):
        raw = b"".join([segment(s) for s in r["segs"]])
        if "back" in r:
            raw = raw + segment(r["back"])
        z = zlib.compress(raw)
        rb = ref.Bits()
        j = r.get("junk", {})
        rb.put(32, len(z) + 17)
        rb.put(32, j.get("ulen", len(raw)))
        rb.put(16, r["x"])
        rb.put(16, r["y"])
        rb.put(16, j.get("version", 14))
        rb.put(16, len(r["segs"]))
        rb.put(8, r.get("backflag", 1) if "back" in r else 0)
        blob = rb.done() + z
        b.patch(dir_at + 32 * i, 32, at)
        at += len(blob)
        blobs.append(blob)
    b.patch(64, 32, head + at)
    return b.done() + b"".join(blobs)
