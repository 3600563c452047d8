"""C33: level files of every supported version and shape are read correctly."""

import io

from checks import levels as L, refenc
from checks.vars import build_map, check_map
from dustmaker.dfreader import DFReader, read_level
from dustmaker.entity import Entity
from checks import ref

BOUNDS = {
    "quick": "complete files made by an independent encoder: level versions 43 (no thumbnail), 44 and arbitrary later ones; segment versions 0..10 and "
    "arbitrary later ones with one tile, filth, prop and entity each, every field arbitrary; arbitrary values in all fields the reader has no use for; "
    "segments at arbitrary places of regions at arbitrary signed coordinates; repeated and unordered layers, repeated prop and entity ids, removed (negative id) "
    "entries, filth without a tile, slack at the end of segments, plain and extended entity names mixed; 1..3 regions; files embedded in a stream",
    "thorough": "as quick",
}
OUTSIDE = "zlib replaced by an identity codec; fields of props stored with 16 bit or more of position beyond the format's 27 bits"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}


def cases(tier):
    vers = list(range(11))
    out = []
    for v in vers + ["later"]:
        for what in ("tile", "prop", "ent", "all", "back"):
            out.append({"k": "seg", "v": v, "what": what, "dm": 0})
        out.append({"k": "seg", "v": v, "what": "prop", "dm": 1})
        out.append({"k": "names", "v": v})
        for k in ("layers", "dups", "removed", "slack", "nodust", "flags"):
            out.append({"k": k, "v": v})
    for v in (43, 44, 45, "later"):
        out.append({"k": "file", "v": v, "off": 0, "m": [[1, "b"], ["v", "v"], [2, "s1"]]})
        out.append({"k": "file", "v": v, "off": 3, "m": []})
    for n in (1, 2, 3):
        out.append({"k": "regions", "n": n})
    out.append({"k": "widths"})
    return out


def junk(ctx, name, keys, bits):
    return {k: ctx.u(name + "." + k, b) for k, b in zip(keys, bits)}


SEGJ = (("width", "uid", "dust", "enemy", "surface", "block"), (8, 32, 16, 16, 16, 16))


def mk_tile(ctx, name, full=True):
    t = L.tile(ctx, name, full=full)
    return L.snap_tile(t)


def no_filth(snap):
    clean = L.snap_edge(L.Tile(L.TileShape(0)).edge_data[0])
    return dict(snap, edges=[e[:4] + clean[4:] for e in snap["edges"]])


def mk_prop(ctx, name):
    return L.snap_prop(L.prop(ctx, name))


def mk_ent(ctx, name, etype):
    return L.snap_entity(L.entity(ctx, name, None, Entity, etype))


def read(data):
    return read_level(data)


def run(ctx, case):
    globals()["run_" + case["k"]](ctx, case)


def segver(ctx, case):
    if case["v"] == "later":
        v = ctx.u("segver", 16)
        ctx.assume(v > 8)
        return v
    return case["v"]


def ver_num(case):
    """Number deciding the layout (all later versions share the newest one)."""
    return 9 if case["v"] == "later" else case["v"]


def base(ctx, case, **kw):
    seg = {"version": segver(ctx, case), "x": ctx.int("sx", 0, 15), "y": ctx.int("sy", 0, 15), "junk": junk(ctx, "j", *SEGJ)}
    seg.update(kw)
    return seg


def run_seg(ctx, case):
    what, v = case["what"], ver_num(case)
    old = v <= 6 and not case["dm"]
    seg = base(ctx, case)
    rx, ry = ctx.s("rx", 9), ctx.s("ry", 9)
    w = {}
    if what in ("tile", "all", "back"):
        w["t"] = mk_tile(ctx, "t")
        tx, ty = ctx.int("tx", 0, 15), ctx.int("ty", 0, 15)
        layer = 19 if what != "back" else 5
        seg["tiles"] = [(layer, [(tx, ty, w["t"])])]
        if what != "back":
            seg["dust"] = [(tx, ty, w["t"])]
    if what in ("prop", "all", "back"):
        w["p"] = mk_prop(ctx, "p")
        pid = ctx.u("pid", 31)
        pl = ctx.u("pl", 8)
        if old:
            px, py = ctx.s("px", 30), ctx.s("py", 30)
            seg["props"] = [("old", pid, pl, px, py, w["p"])]
        else:
            px, py = ctx.s("px", 27), ctx.s("py", 27)
            lg = ctx.concrete(ctx.choice("lg", (0, 27, 32, 33, 55))) if what == "prop" else 32
            w["p"]["scale"] = pow(50.0, (lg - 32.0) / 24.0)
            seg["props"] = [(pid, pl, px, py, lg, w["p"])]
    if what in ("ent", "all"):
        w["e"] = mk_ent(ctx, "e", "thing")
        eid = ctx.u("eid", 31)
        ex, ey = ctx.s("ex", 30), ctx.s("ey", 30)
        val = ctx.s("val", 32)
        seg["ents"] = [(eid, "thing", None, ex, ey, w["e"], [("k", (ref.INT, val))])]
    refs = [("level_type", (ref.INT, 6))] if case["dm"] else []
    reg = {"x": rx, "y": ry, "segs": [] if what == "back" else [seg], "junk": junk(ctx, "rj", ("ulen", "version"), (32, 16))}
    if what == "back":
        reg["back"] = seg
        reg["backflag"] = ctx.int("bf", 1, 255)
    data = refenc.level(regions=[reg], refs=refs)
    lev = read(data)
    dest = lev.backdrop if what == "back" else lev
    unit = 16 if what == "back" else 256
    if "t" in w:
        ctx.check(len(dest.tiles) == 1, "one tile")
        t = dest.tiles.get((layer, rx * unit + seg["x"] * 16 + tx, ry * unit + seg["y"] * 16 + ty))
        ctx.check(t is not None, "tile place")
        if t is not None:
            L.check_tile(ctx, t, w["t"] if what != "back" else no_filth(w["t"]), "tile")
    else:
        ctx.check(not dest.tiles, "no tile")
    if "p" in w:
        r = dest.props.get(pid)
        ctx.check(len(dest.props) == 1 and r is not None, "one prop")
        if r is not None:
            s = 8 if old else 1
            ctx.check(r[0] == pl and r[1] == px / s and r[2] == py / s, "prop place")
            L.check_prop(ctx, r[3], w["p"], "prop")
    if "e" in w:
        r = lev.entities.get(eid)
        ctx.check(len(lev.entities) == 1 and r is not None, "one entity")
        if r is not None:
            ctx.check(r[0] == ex / 128 and r[1] == ey / 128, "entity place")
            L.check_entity(ctx, r[2], w["e"], "entity")
            ctx.check(len(r[2].variables) == 1 and r[2].variables["k"].value == val, "entity variables")
    if what == "back":
        ctx.check(not lev.tiles and not lev.props and not lev.entities, "nothing in the foreground")
    else:
        ctx.check(not lev.backdrop.tiles and not lev.backdrop.props, "nothing in the backdrop")


def run_names(ctx, case):
    """Plain, extended and literal names side by side."""
    v = ver_num(case)
    names = [("enemy_bear", None), ("entity", "z_first"), ("thing", None), ("entity", "entity"), ("entity", "z_other_name")]
    ents = []
    for i, (stored, full) in enumerate(names):
        s = mk_ent(ctx, "e%d" % i, stored)
        ents.append((100 + i, stored, full, 128 * i, -128 * i, s, [("k", (ref.INT, ctx.s("v%d" % i, 32)))]))
    seg = base(ctx, case, ents=ents)
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.entities) == len(names), "number of entities")
    for i, (stored, full) in enumerate(names):
        r = lev.entities.get(100 + i)
        ctx.check(r is not None, "entity id")
        if r is None:
            continue
        want = full if full is not None and v > 7 else stored
        ctx.check(r[2].etype == want, "entity type %d" % i)
        L.check_entity(ctx, r[2], ents[i][5], "entity %d" % i, ("etype",))
        ctx.check(r[2].variables["k"].value == ents[i][6][0][1][1], "entity variables %d" % i)


def run_layers(ctx, case):
    """Layers in any order and more than once; later records replace earlier ones."""
    a, b, c, d = [mk_tile(ctx, n, False) for n in "abcd"]
    la, lb = ctx.u("la", 8), ctx.u("lb", 8)
    ctx.assume(la != lb)
    seg = base(ctx, case, tiles=[(la, [(1, 2, a), (15, 0, b)]), (lb, [(1, 2, c)]), (la, [(1, 2, d)])])
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.tiles) == 3, "number of tiles")
    for key, dx, dy, w in ((la, 1, 2, d), (la, 15, 0, b), (lb, 1, 2, c)):
        t = lev.tiles.get((key, seg["x"] * 16 + dx, seg["y"] * 16 + dy))
        ctx.check(t is not None, "tile place")
        if t is not None:
            L.check_tile(ctx, t, w, "tile", False)


def run_dups(ctx, case):
    """Repeated ids: the later entry replaces the earlier one."""
    v = ver_num(case)
    ps = [mk_prop(ctx, "p%d" % i) for i in range(3)]
    es = [mk_ent(ctx, "e%d" % i, "thing") for i in range(3)]
    i1, i2, i3 = [ctx.u("i%d" % i, 31) for i in range(3)]
    ctx.assume(i1 != i2 and i1 != i3 and i2 != i3)

    def prop_rec(idn, i):
        return ("old", idn, 3, 8 * i, 8 * i, ps[i]) if v <= 6 else (idn, 3, i, i, 32, ps[i])

    def ent_rec(idn, i):
        return (idn, "thing", None, 128 * i, 0, es[i], [])

    seg = base(ctx, case, props=[prop_rec(i1, 0), prop_rec(i2, 1), prop_rec(i1, 2)], ents=[ent_rec(i1, 0), ent_rec(i3, 1)])
    seg2 = {"version": v, "x": 3, "y": 4, "ents": [ent_rec(i1, 2)]}
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg, seg2]}]))
    ctx.check(len(lev.props) == 2 and len(lev.entities) == 2, "counts")
    for idn, i in ((i1, 2), (i2, 1)):
        r = lev.props.get(idn)
        ctx.check(r is not None and r[1] == i, "prop under its id")
        if r is not None:
            L.check_prop(ctx, r[3], ps[i], "prop")
    for idn, i in ((i1, 2), (i3, 1)):
        r = lev.entities.get(idn)
        ctx.check(r is not None and r[0] == i, "entity under its id")
        if r is not None:
            L.check_entity(ctx, r[2], es[i], "entity")


def run_removed(ctx, case):
    """Entries with a negative id hold nothing and are skipped."""
    v = ver_num(case)
    n1, n2 = [ctx.int("n%d" % i, -(1 << 31), -1) for i in range(2)]
    p, e = mk_prop(ctx, "p"), mk_ent(ctx, "e", "thing")
    prop_rec = ("old", 7, 3, 8, 16, p) if v <= 6 else (7, 3, 1, 2, 32, p)
    seg = base(ctx, case, props=[(n1,), prop_rec, (n2,)], ents=[(n2,), (n1,), (8, "thing", None, 128, 256, e, [])])
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.props) == 1 and len(lev.entities) == 1, "counts")
    r = lev.props.get(7)
    ctx.check(r is not None and r[1] == 1 and r[2] == 2, "prop")
    if r is not None:
        L.check_prop(ctx, r[3], p, "prop")
    r = lev.entities.get(8)
    ctx.check(r is not None and r[0] == 1 and r[1] == 2, "entity")
    if r is not None:
        L.check_entity(ctx, r[2], e, "entity")


def run_slack(ctx, case):
    """Segments are found by their recorded size."""
    v = ver_num(case)
    ts = [mk_tile(ctx, "t%d" % i, False) for i in range(3)]
    e = mk_ent(ctx, "e", "entity")
    stored = "entity"
    segs = [{"version": v, "x": 1, "y": i, "tiles": [(4, [(5, 6, ts[i])])], "slack": 3 * i + 1} for i in range(2)]
    segs.append({"version": v, "x": 2, "y": 7, "ents": [(9, stored, "z_name", 0, 0, e, [])], "slack": 5})
    segs.append({"version": v, "x": 2, "y": 8})
    reg = {"x": 0, "y": 0, "segs": segs, "back": {"version": v, "x": 0, "y": 0, "tiles": [(4, [(5, 6, ts[2])])], "slack": 2}}
    lev = read(refenc.level(regions=[reg]))
    ctx.check(len(lev.tiles) == 2 and len(lev.backdrop.tiles) == 1 and len(lev.entities) == 1, "counts")
    for i in range(2):
        t = lev.tiles.get((4, 21, 16 * i + 6))
        ctx.check(t is not None, "tile place")
        if t is not None:
            L.check_tile(ctx, t, ts[i], "tile", False)
    t = lev.backdrop.tiles.get((4, 5, 6))
    ctx.check(t is not None, "backdrop tile place")
    if t is not None:
        L.check_tile(ctx, t, ts[2], "backdrop tile", False)
    ctx.check(lev.entities[9][2].etype == ("z_name" if v > 7 else "entity"), "entity type")


def run_nodust(ctx, case):
    """Filth belongs to layer 19; filth entries without a tile there do nothing."""
    a, b, f = mk_tile(ctx, "a", False), mk_tile(ctx, "b", False), mk_tile(ctx, "f")
    layer = ctx.u("layer", 8)
    ctx.assume(layer != 19)
    seg = base(ctx, case, tiles=[(layer, [(1, 1, a)]), (19, [(2, 2, b)])], dust=[(1, 1, f), (5, 5, f)])
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.tiles) == 2, "number of tiles")
    for ly, d, w in ((layer, 1, a), (19, 2, b)):
        t = lev.tiles.get((ly, seg["x"] * 16 + d, seg["y"] * 16 + d))
        ctx.check(t is not None, "tile place")
        if t is not None:
            L.check_tile(ctx, t, no_filth(w), "tile")


def run_flags(ctx, case):
    """Content flags beyond the four known ones mean nothing to the reader."""
    t = mk_tile(ctx, "t", False)
    seg = base(ctx, case, tiles=[(3, [(1, 1, t)])], flags=16 * ctx.u("fl", 28))
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.tiles) == 1 and not lev.props and not lev.entities, "counts")
    for g in lev.tiles.values():
        L.check_tile(ctx, g, t, "tile", False)


def run_widths(ctx, case):
    """Five bit tile coordinates reach past a segment of 16."""
    t = mk_tile(ctx, "t", False)
    tx, ty = ctx.int("tx", 0, 31), ctx.int("ty", 0, 31)
    sx, sy = ctx.u("sx", 8), ctx.u("sy", 8)
    seg = {"version": 8, "x": sx, "y": sy, "tiles": [(3, [(tx, ty, t)])]}
    lev = read(refenc.level(regions=[{"x": 0, "y": 0, "segs": [seg]}]))
    ctx.check(len(lev.tiles) == 1, "counts")
    g = lev.tiles.get((3, 16 * sx + tx, 16 * sy + ty))
    ctx.check(g is not None, "tile place")


def run_file(ctx, case):
    _, want = build_map(ctx, case["m"], "m")
    v = case["v"]
    if v == "later":
        v = ctx.u("lv", 16)
        ctx.assume(v > 43)
    sshot = None if case["v"] == 43 else ctx.bytes("ss", 3)
    j = junk(ctx, "j", ("mtd_version", "region_offset", "prop_uid", "save_uid", "region_uid"), (16, 32, 32, 32, 32))
    t = mk_tile(ctx, "t", False)
    regs = [{"x": 0, "y": 0, "segs": [{"version": 8, "x": 0, "y": 0, "tiles": [(3, [(1, 1, t)])]}]}]
    refs = want
    data = refenc.level(version=v, regions=regs, refs=refs, sshot=sshot, junk=j)
    off = case["off"]
    src = io.BytesIO(b"\x55" * off + data + b"\x66\x77")
    src.seek(off)
    r = DFReader(src)
    lev = r.read_level()
    ctx.check(r.bit_tell() == 8 * (off + len(data)), "reader is at the end of the level")
    ctx.check(lev.sshot == (b"" if sshot is None else sshot), "thumbnail")
    check_map(ctx, lev.variables, want, "variables")
    ctx.check(len(lev.tiles) == 1, "tiles")
    src.seek(off)
    r = DFReader(src)
    meta = r.read_level(metadata_only=True)
    ctx.check(meta.sshot == lev.sshot and not meta.tiles, "metadata only")
    check_map(ctx, meta.variables, want, "metadata variables")
    src.seek(off)
    r = DFReader(src)
    lev, offs = r.read_level_ex()
    ctx.check(len(offs) == 2 and offs[0] == 0, "region offsets")
    ctx.check(r.bit_tell() == 8 * (off + len(data)) - 8 * offs[-1], "end of the region data")


def run_regions(ctx, case):
    n = case["n"]
    regs, want = [], []
    for i in range(n):
        rx, ry = ctx.s("rx%d" % i, 12), ctx.s("ry%d" % i, 12)
        for r in regs:
            ctx.assume(r["x"] != rx or r["y"] != ry)
        t, b = mk_tile(ctx, "t%d" % i, False), mk_tile(ctx, "b%d" % i, False)
        reg = {"x": rx, "y": ry, "segs": [{"version": 8, "x": 15, "y": 2 * i, "tiles": [(3, [(0, 15, t)])]}]}
        if i != 1:
            reg["back"] = {"version": 8, "x": 0, "y": 0, "tiles": [(4, [(7, 8, b)])]}
        regs.append(reg)
        want.append((rx, ry, t, b))
    lev = read(refenc.level(regions=regs))
    ctx.check(len(lev.tiles) == n and len(lev.backdrop.tiles) == (n if n == 1 else n - 1), "counts")
    for i, (rx, ry, t, b) in enumerate(want):
        g = lev.tiles.get((3, 256 * rx + 240, 256 * ry + 32 * i + 15))
        ctx.check(g is not None, "tile place")
        if g is not None:
            L.check_tile(ctx, g, t, "tile %d" % i, False)
        if i != 1:
            g = lev.backdrop.tiles.get((4, 16 * rx + 7, 16 * ry + 8))
            ctx.check(g is not None, "backdrop tile place")
            if g is not None:
                L.check_tile(ctx, g, b, "backdrop tile %d" % i, False)
