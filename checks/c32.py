"""C32: the command line tools change exactly what they are asked to change."""

from checks import cli, geom, levels as L
from checks.c13 import MAPS, check_filled, fill
from checks.c22 import cell, check_moved_tile, check_pose, point
from checks.c20 import moved
from checks.c31 import file_vars, make_file
from checks.common import finish, writer
from checks.vars import build_map, check_map
from dustmaker.cmd.variables import variables_to_json
from dustmaker.entity import Entity
from dustmaker.level import Level, LevelType
from dustmaker.variable import VariableBool, VariableInt, VariableStruct

BOUNDS = {
    "quick": "variables: levels with 0..3 regions and arbitrary content, updated with documents of arbitrary values; documents that cannot be "
    "stored (illegal keys, wrong types and ranges, missing schema, strings that are too long) and files with any unknown 6 byte "
    "header; files cut short by 1..60 bytes and levels transformed in place; thumbnail: images of 0..5 arbitrary bytes, with and without an existing image, icon flag and regions; transform: all "
    "rotations -5..5, flips, factors 1..3 and several translations (given as text), over levels with arbitrary tile, prop and entity attributes",
    "thorough": "as quick with rotations -9..9 and factors up to 5",
}
OUTSIDE = "converting images (--auto-convert, --auto-scale need PIL); zlib replaced by an identity codec; crashes of the machine"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}

BAD = [
    {"schema": {"k!": "int"}, "vars": {"k!": 4}},
    {"schema": {"a": "int", "b-": "bool"}, "vars": {"a": 1, "b-": True}},
    {"schema": {"k": "int"}, "vars": {"k": "text"}},
    {"schema": {"k": "int"}, "vars": {"k": 1 << 31}},
    {"schema": {"k": "uint"}, "vars": {"k": -1}},
    {"schema": {"k": "int"}, "vars": {"m": 1}},
    {"schema": {"k": "number"}, "vars": {"k": 1}},
    {"schema": {"k": "vec2"}, "vars": {"k": [1.0]}},
    {"schema": {"k": ["bool"]}, "vars": {"k": [True, 3]}},
    {"vars": {}},
    {"schema": {}},
    {"schema": "int", "vars": 5},
    {"schema": {"k": {"x": "int", "y ": "int"}}, "vars": {"k": {"x": 1, "y ": 2}}},
    {"schema": {"k" * 64: "int"}, "vars": {"k" * 64: 2}},
    {"schema": {"k": "string"}, "vars": {"k": "65536"}},
    {"schema": {"k": "string"}, "vars": {"k": "\u0394"}},
]


def cases(tier):
    out = []
    for m in (0, 1, 3, 8, 9, 10):
        out.append({"k": "empty", "m": m, "n": (m + 1) % 8})
    for s in (0, 1, 2):
        for a, b in ((0, 8), (5, 2), (9, 11)):
            out.append({"k": "vars", "spread": s, "a": a, "b": b})
    for i in range(len(BAD)):
        for kind in ("DF_LVL", "DF_STA", "new"):
            out.append({"k": "bad", "doc": i, "kind": kind})
    out += [{"k": "header"}, {"k": "newheader"}]
    for upd in (0, 1):
        for force in (0, 1):
            for exists in (0, 1):
                out.append({"k": "thumb", "upd": upd, "force": force, "exists": exists, "m": (1, 9, 3, 10)[2 * upd + force], "spread": (upd + 2 * exists) % 3})
    out += [{"k": "thumb", "upd": 1, "force": 0, "exists": 1, "m": m, "spread": None} for m in (0, 8)]
    out += [{"k": "thumb", "upd": 1, "force": 0, "exists": 1, "m": "icon", "spread": 0}]
    for cut in (1, 2, 17, 40, 60):
        out.append({"k": "thumbcut", "cut": cut, "spread": cut % 3})
        out.append({"k": "varscut", "cut": cut, "spread": cut % 3})
    out += [{"k": "inplace", "argv": a} for a in (["--hflip"], ["--vflip", "--rotate=1"], ["--upscale=2", "--hflip"], [])]
    tr = [[0, 0], [48, -96], [-4800, 4848]]
    i = 0
    for rot in (-5, -1, 0, 1, 2, 3, 4) if tier == "quick" else range(-9, 10):
        for v in (0, 1):
            for h in (0, 1):
                for f in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
                    i += 1
                    for t in tr:
                        out.append({"k": "tx", "rot": rot, "v": v, "h": h, "f": f, "t": t, "lt": (i + rot) % 4})
    out.append({"k": "tx", "rot": 0, "v": 0, "h": 0, "f": 2, "t": [96, 48], "lt": 0})
    for rot, v, h, f, t in ((0, 0, 0, 1, [0.25, 0]), (0, 0, 0, 1, [0, -13.5]), (1, 0, 0, 1, [0.5, 0.75]), (0, 1, 0, 2, [-7.125, 100.5]),
                            (3, 0, 1, 3, [1000.25, -0.25])):
        out.append({"k": "frac", "rot": rot, "v": v, "h": h, "f": f, "t": t})
    out.append({"k": "tx", "rot": 1, "v": 1, "h": 0, "f": 3, "t": [144, 48], "lt": 1})
    out += [{"k": "defaults", "lt": lt} for lt in (0, 1, 4)]
    return out


def doc_of(variables):
    schema, doc = variables_to_json(VariableStruct(variables))
    return {"schema": schema, "vars": doc}


def same_but(ctx, data, new, msg):
    """Everything past the variables and thumbnail is as it was: the regions are found and byte-identical."""
    a, ro, rdata, _ = read_ex(data)
    b, no, ndata, _ = read_ex(new)
    ctx.check(len(ro) == len(no), msg + ": number of regions")
    for g, w in zip(no, ro):
        ctx.check(g == w, msg + ": region offset")
    ctx.check(rdata == ndata, msg + ": region data")
    return a, b


def read_ex(data):
    from checks.c14 import read_ex as r

    return r(data)


def run(ctx, case):
    globals()["run_" + case["k"]](ctx, case)


def run_empty(ctx, case):
    lev = Level()
    lev.variables, want = build_map(ctx, MAPS[case["m"]], "m")
    lev.sshot = ctx.bytes("ss", 3)
    data = L.level_bytes(lev)
    n, nwant = build_map(ctx, MAPS[case["n"]], "n")
    ctx.put_file("lvl", data)
    ctx.put_json("doc", doc_of(n))
    rc = cli.run_tool(ctx, "variables", [ctx.path("lvl"), ctx.path("doc")])
    ctx.check(rc == 0, "exit code")
    lev.variables = n
    ctx.check(ctx.get_file("lvl") == L.level_bytes(lev), "only the variables are replaced")
    check_map(ctx, L.level_from(ctx.get_file("lvl")).variables, nwant, "updated")


def run_vars(ctx, case):
    lev = Level()
    w = fill(ctx, lev, "f", case["spread"])
    lev.variables, want = build_map(ctx, MAPS[case["a"]], "m")
    lev.sshot = ctx.bytes("ss", 2)
    data = L.level_bytes(lev)
    n, nwant = build_map(ctx, MAPS[case["b"]], "n")
    ctx.put_file("lvl", data)
    ctx.put_json("doc", doc_of(n))
    rc = cli.run_tool(ctx, "variables", [ctx.path("lvl"), ctx.path("doc")])
    ctx.check(rc == 0, "exit code")
    new = ctx.get_file("lvl")
    a, b = same_but(ctx, data, new, "update")
    ctx.check(a.sshot == b.sshot, "thumbnail is kept")
    got = L.level_from(new)
    check_map(ctx, got.variables, nwant, "updated")
    check_filled(ctx, got, w)


def run_bad(ctx, case):
    doc = {k: v for k, v in BAD[case["doc"]].items()}
    v = doc.get("vars")
    if isinstance(v, dict) and v.get("k") == "65536":
        doc["vars"] = {"k": "x" * 65536}
    ctx.put_json("doc", doc)
    kind = case["kind"]
    m, _ = build_map(ctx, [["old", "i"], ["s", "s1"]], "m")
    data = make_file("DF_STA" if kind == "new" else kind, m)
    ctx.put_file("obj", data)
    argv = [ctx.path("obj"), ctx.path("doc")]
    if kind == "new":
        argv += ["--header", "DF_STA"]
    try:
        rc = cli.run_tool(ctx, "variables", argv)
    except Exception:
        rc = 1
    if rc != 0:
        ctx.check(ctx.get_file("obj") == data, "a failed update leaves the file alone")


def run_header(ctx, case):
    head = ctx.bytes("h", 6)
    for known in (b"DF_LVL", b"DF_STA", b"DF_CFG", b"DF_FOG"):
        ctx.assume(head != known)
    data = head + ctx.bytes("r", 9)
    ctx.put_file("obj", data)
    ctx.put_json("doc", {"schema": {"k": "int"}, "vars": {"k": 3}})
    ctx.check(cli.run_tool(ctx, "variables", [ctx.path("obj"), ctx.path("doc")]) != 0, "unknown header is refused")
    ctx.check(ctx.get_file("obj") == data, "file of unknown kind is left alone")
    ctx.check(cli.run_tool(ctx, "variables", [ctx.path("obj")]) != 0, "unknown header is not printed")
    ctx.check(ctx.get_file("obj") == data, "file of unknown kind is left alone when printing")


def run_newheader(ctx, case):
    data = ctx.bytes("r", 20)
    ctx.put_file("obj", data)
    ctx.put_json("doc", {"schema": {"k": "int"}, "vars": {"k": 3}})
    for h in ("DF_LVL", "DF_RPL", "nonsense", "df_sta", "DF_ST", "DF_STAX"):
        ctx.check(cli.run_tool(ctx, "variables", ["--header", h, ctx.path("obj"), ctx.path("doc")]) != 0, "header %s is refused" % h)
        ctx.check(ctx.get_file("obj") == data, "file is left alone")


def run_thumb(ctx, case):
    lev = Level()
    if case["m"] == "icon":
        want = None
        lev.variables = {"icon_taken": VariableBool(ctx.bool("icon")), "k": VariableInt(ctx.s("kv", 32))}
    else:
        lev.variables, want = build_map(ctx, MAPS[case["m"]], "m")
    w = fill(ctx, lev, "f", case["spread"]) if case["spread"] is not None else None
    lev.sshot = ctx.bytes("ss", 4)
    data = L.level_bytes(lev)
    image = ctx.bytes("im", 5 if case["force"] else 3)
    ctx.put_file("lvl", data)
    if case["exists"]:
        ctx.put_file("img", image)
    argv = [ctx.path("lvl"), ctx.path("img")] + ["--update"] * case["upd"] + ["--force"] * case["force"]
    if case["upd"] and not case["exists"]:
        try:
            rc = cli.run_tool(ctx, "thumbnail", argv)
        except Exception:
            rc = 1
        ctx.check(rc != 0, "an image that does not exist is refused")
        ctx.check(ctx.get_file("lvl") == data, "level is left alone")
        return
    rc = cli.run_tool(ctx, "thumbnail", argv)
    if not case["upd"]:
        ctx.check(ctx.get_file("lvl") == data, "extracting leaves the level alone")
        if case["exists"] and not case["force"]:
            ctx.check(rc != 0, "existing image is refused")
            ctx.check(ctx.get_file("img") == image, "existing image is left alone")
        else:
            ctx.check(rc == 0, "exit code")
            ctx.check(ctx.get_file("img") == lev.sshot, "extracted image is the thumbnail")
        return
    ctx.check(rc == 0, "exit code")
    ctx.check(ctx.get_file("img") == image, "image is left alone")
    new = ctx.get_file("lvl")
    a, b = same_but(ctx, data, new, "thumbnail")
    ctx.check(b.sshot == image, "thumbnail is the image")
    icon = b.variables.pop("icon_taken", None)
    ctx.check(icon is not None and type(icon) is VariableBool and icon.value == True, "icon is marked as taken")
    if want is not None:
        check_map(ctx, b.variables, want, "other variables")
    else:
        ctx.check(len(b.variables) == 1 and b.variables["k"].value == lev.variables["k"].value, "other variables")
    if w is not None:
        check_filled(ctx, L.level_from(new), w)


def attempt(ctx, tool, argv):
    try:
        return cli.run_tool(ctx, tool, argv)
    except Exception:
        return 1


def cut_level(ctx, case):
    """A level file some bytes short."""
    lev = Level()
    lev.variables, _ = build_map(ctx, MAPS[8], "m")
    fill(ctx, lev, "f", case["spread"])
    lev.sshot = ctx.bytes("ss", 4)
    data = L.level_bytes(lev)
    data = data[:len(data) - case["cut"]]
    ctx.put_file("lvl", data)
    return data


def run_thumbcut(ctx, case):
    data = cut_level(ctx, case)
    ctx.put_file("img", ctx.bytes("im", 3))
    if attempt(ctx, "thumbnail", [ctx.path("lvl"), ctx.path("img"), "--update"]):
        ctx.check(ctx.get_file("lvl") == data, "a failed thumbnail update leaves the level alone")


def run_varscut(ctx, case):
    data = cut_level(ctx, case)
    ctx.put_json("doc", {"schema": {"k": "int"}, "vars": {"k": 3}})
    if attempt(ctx, "variables", [ctx.path("lvl"), ctx.path("doc")]):
        ctx.check(ctx.get_file("lvl") == data, "a failed update leaves the level alone")


def run_inplace(ctx, case):
    """Transforming a level in place, with contents that may turn out not to be storable."""
    lev = Level()
    t = L.tile(ctx, "t", shape=0)
    lev.tiles[(19, -7, 9)] = t
    data = L.level_bytes(lev)
    ctx.put_file("lvl", data)
    if attempt(ctx, "transform", [ctx.path("lvl"), ctx.path("lvl")] + case["argv"]):
        ctx.check(ctx.get_file("lvl") == data, "a failed transformation leaves the level alone")
    else:
        ctx.check(len(L.level_from(ctx.get_file("lvl")).tiles) >= 1, "transformed in place")


LEVEL_TYPES = list(LevelType)


def run_tx(ctx, case, argv=None):
    """upscale, rotate, flip, then shift, in that order"""
    lev = Level()
    lt = LEVEL_TYPES[case["lt"] % len(LEVEL_TYPES)]
    lev.level_type = lt
    t = L.tile(ctx, "t", shape=17, full=False)
    for e in t.edge_data:
        for a in e.angles:
            ctx.assume(a != -128)
    ts = L.snap_tile(t)
    lev.tiles[(18, -7, 9)] = t
    p, e = L.prop(ctx, "p"), L.entity(ctx, "e", None, Entity, "thing")
    ps, es = L.snap_prop(p), L.snap_entity(e)
    lev.add_prop(6, 100.0, -333.0, p, 300)
    lev.add_entity(-50.25, 77.5, e, 301)
    s = lev.start_position(2)
    s.x, s.y = 480, -960
    lev.sshot = ctx.bytes("ss", 2)
    extra = ctx.s("k", 32)
    lev.variables["keep"] = VariableInt(extra)
    data = L.level_bytes(lev)
    ctx.put_file("in", data)
    if argv is None:
        argv = ["--upscale", str(case["f"]), "--rotate=%d" % case["rot"]]
        argv += ["--vflip"] * case["v"] + ["--hflip"] * case["h"]
        argv += ["--translate-x=%d" % case["t"][0], "--translate-y=%d" % case["t"][1]]
    rc = cli.run_tool(ctx, "transform", [ctx.path("in"), ctx.path("out")] + argv)
    ctx.check(not rc, "exit code")
    ctx.check(ctx.get_file("in") == data, "input is left alone")
    f = case["f"]
    lin = geom.LINEAR[case["rot"] % 4]
    if case["v"]:
        lin = (lin[0], lin[1], -lin[2], -lin[3])
    if case["h"]:
        lin = (-lin[0], -lin[1], lin[2], lin[3])
    ox, oy = case["t"]
    got = L.level_from(ctx.get_file("out"))
    ctx.check(got.sshot == lev.sshot, "thumbnail")
    ctx.check(got.variables["keep"].value == extra, "other variables")
    ctx.check(got.level_type == (LevelType.DUSTMOD if f > 1 and lt == LevelType.NORMAL else lt), "level type")
    x, y = point(tuple(f * v for v in lin), ox, oy, 100.0, -333.0)
    ctx.check(len(got.props) == 1 and 300 in got.props, "one prop")
    if 300 in got.props:
        r = got.props[300]
        ctx.check(r[0] == 6 and r[1] == x and r[2] == y, "prop place")
        check_pose(ctx, r[3], ps, lin, "prop")
        L.check_prop(ctx, r[3], ps, "prop", ("rotation", "flip_x", "flip_y", "scale"))
        if f == 1:
            ctx.check(r[3].scale == 1, "prop scale")
    x, y = point(tuple(f * v for v in lin), ox, oy, -50.25, 77.5)
    ctx.check(len(got.entities) == 1 and 301 in got.entities, "one entity")
    if 301 in got.entities:
        r = got.entities[301]
        ctx.check(r[0] == x and r[1] == y, "entity place")
        check_pose(ctx, r[2], es, lin, "entity")
    x, y = point(tuple(f * v for v in lin), ox, oy, 480, -960)
    s = got.start_position(2)
    ctx.check(s.x == x and s.y == y, "start position")
    # the block of tiles the one tile grew into
    cx, cy = cell(lin, 0, 0, -7, 9)
    kx, ky = ox // 48, oy // 48
    ctx.check(len(got.tiles) >= 1, "tiles")
    for layer, tx, ty in got.tiles:
        ctx.check(layer == 18 and cx * f + kx <= tx and tx < cx * f + f + kx and cy * f + ky <= ty and ty < cy * f + f + ky, "tile place")
    if f == 1:
        for tt in got.tiles.values():
            check_moved_tile(ctx, tt, moved(ctx, ts, lin), "tile")


def run_frac(ctx, case):
    """Shifts by fractions of a pixel; entities are kept to 1/256 of a pixel."""
    lev = Level()
    px, py = ctx.int("px", -100000, 100000), ctx.int("py", -100000, 100000)
    lev.add_entity(px / 4, py / 4, L.entity(ctx, "e", None, Entity, "thing"), 301)
    data = L.level_bytes(lev)
    ctx.put_file("in", data)
    argv = ["--upscale", str(case["f"]), "--rotate=%d" % case["rot"]] + ["--vflip"] * case["v"] + ["--hflip"] * case["h"]
    argv += ["--translate-x=%s" % case["t"][0], "--translate-y=%s" % case["t"][1]]
    rc = cli.run_tool(ctx, "transform", [ctx.path("in"), ctx.path("out")] + argv)
    ctx.check(not rc, "exit code")
    lin = geom.LINEAR[case["rot"] % 4]
    if case["v"]:
        lin = (lin[0], lin[1], -lin[2], -lin[3])
    if case["h"]:
        lin = (-lin[0], -lin[1], lin[2], lin[3])
    got = L.level_from(ctx.get_file("out"))
    x, y = point(tuple(case["f"] * v for v in lin), case["t"][0], case["t"][1], px / 4, py / 4)
    ctx.check(len(got.entities) == 1 and 301 in got.entities, "one entity")
    if 301 in got.entities:
        ctx.check(got.entities[301][0] == x and got.entities[301][1] == y, "entity place")


def run_defaults(ctx, case):
    run_tx(ctx, {"rot": 0, "v": 0, "h": 0, "f": 1, "t": [0, 0], "lt": case["lt"]}, [])
