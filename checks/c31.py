"""C31: the JSON form of variables is lossless."""

import io

from checks import cli, levels as L, vars as VS
from checks.common import finish, raises, writer
from checks.vars import build, build_map, check_map, check_same
from dustmaker.cmd.variables import json_to_variables, variables_to_json
from dustmaker.dfreader import DFReader
from dustmaker.level import Level
from dustmaker.variable import VariableArray, VariableInt, VariableStruct, VariableUInt

BOUNDS = {
    "quick": "variable trees of every type with arbitrary leaf values, strings of 0..3 and 40 arbitrary bytes, keys of 1..3 arbitrary legal characters, arrays and structs of 0..3 and 12 "
    "members nested up to three levels with uneven members; through the conversion functions, through printed JSON documents and through whole var "
    "files and levels (print, then update with the same or another document)",
    "thorough": "as quick",
}
OUTSIDE = "JSON text itself (the json module is modelled as lossless for documents; the replay uses the real one); hand-edited documents that do not match their schema"
OPTS = {"quick": {"case": 120}, "thorough": {"case": 600}}
TREES = [
    "b", "i", "u", "f", "v", "s0", "s1", "s3",
    ["a", "b", []], ["a", "b", ["b"]], ["a", "i", ["i", "i"]], ["a", "u", ["u"]], ["a", "f", ["f", "f"]], ["a", "v", ["v", "v"]],
    ["a", "s", ["s0", "s2"]],
    ["a", "a", []], ["a", "a", [["a", "i", []]]], ["a", "a", [["a", "i", ["i"]]]], ["a", "a", [["a", "i", []], ["a", "i", ["i", "i"]]]],
    ["a", "a", [["a", "a", []]]], ["a", "a", [["a", "a", []], ["a", "a", [["a", "u", ["u"]]]]]],
    ["a", "a", [["a", "a", [["a", "u", ["u"]]]], ["a", "a", []]]],
    ["a", "a", [["a", "t", []], ["a", "t", [["t", [["k", "i"]]]]]]],
    ["a", "t", []], ["a", "t", [["t", []]]], ["a", "t", [["t", [["k", "i"]]], ["t", [["k", "i"]]]]],
    ["a", "t", [["t", [["k", "i"]]], ["t", [["m", "s1"]]]]], ["a", "t", [["t", []], ["t", [["m", "v"], ["k", "b"]]], ["t", [["k", "b"]]]]],
    ["a", "t", [["t", [["k", ["a", "a", []]]]], ["t", [["k", ["a", "a", [["a", "f", ["f"]]]]]]]]],
    ["a", "t", [["t", [["k", ["t", [["x", "i"]]]]]], ["t", [["k", ["t", [["y", "u"]]]]]]]],
    ["t", []], ["t", [[1, "i"], [3, "f"]]], ["t", [["k", ["t", [[2, "s2"]]]], [2, ["a", "u", ["u"]]]]],
    ["t", [["s", "s1"], ["v", "v"], ["b", "b"]]], ["t", [["a", ["a", "s", ["s1"]]], ["b", ["a", "v", ["v"]]], ["c", ["t", []]]]],
]
UNEVEN = [
    [["a", "a", [["a", "i", ["i"]], ["a", "u", ["u"]]]]],
    [["a", "t", [["t", [["k", "i"]]], ["t", [["k", "u"]]]]]],
    [["a", "t", [["t", [["k", "i"]]], ["t", [["k", ["a", "i", ["i"]]]]]]]],
    [["a", "t", [["t", [["k", ["t", []]]]], ["t", [["k", ["a", "i", []]]]]]]],
    [["a", "a", [["a", "i", []], ["a", "t", []]]]],
]


def cases(tier):
    out = [{"k": "conv", "t": t} for t in TREES]
    big = [["a", t, [t + ("1" if t == "s" else "")] * 12] for t in "biufvs"] + [["t", [[n, "i"] for n in ("9", "10", "a", "B", "_", "zz", "0", "1", "2", "3", "4", "5")]],
           ["a", "t", [["t", [[n, "u"]]] for n in ("b", "a", "c", "Z", "0", "9")]], "s40", ["a", "a", [["a", "i", ["i"] * (j % 3)] for j in range(11)]],
           ["a", "a", [["a", "i", []]] * 12 + [["a", "i", ["i"]]]], ["a", "t", [["t", []]] * 12 + [["t", [["k", "i"]]]]],
           ["a", "t", [["t", [["m", "b"]]]] * 12 + [["t", [["k", "s1"], ["m", "b"]]]]]]
    out += [{"k": "conv", "t": t} for t in big]
    for t in big:
        if t[1] in ("f", "v"):
            t = ["a", t[1], [t[1]] * 4]
        out.append({"k": "file", "m": t[1] if t[0] == "t" else [["k", t]], "kind": "DF_STA"})
        out.append({"k": "file", "m": t[1] if t[0] == "t" else [["k", t]], "kind": "DF_LVL"})
    out += [{"k": "uneven", "t": u[0]} for u in UNEVEN]
    maps = [t[1] for t in TREES if isinstance(t, list) and t[0] == "t"]
    maps += [[["k", TREES[i]]] for i in (15, 18, 20, 22, 27, 28)]
    for i, m in enumerate(maps):
        for kind in ("DF_STA", "DF_CFG", "DF_FOG", "DF_LVL"):
            out.append({"k": "file", "m": m, "kind": kind})
    for i in range(len(maps)):
        for j in range(len(maps)):
            out.append({"k": "update", "m": maps[i], "n": maps[j], "kind": ("DF_STA", "DF_LVL")[(i + j) % 2]})
    out += [{"k": "new", "h": h} for h in ("DF_STA", "DF_CFG", "DF_FOG")]
    return out


def make_file(kind, variables):
    if kind == "DF_LVL":
        lev = Level()
        lev.variables = variables
        lev.sshot = b"shot"
        lev.tiles[(19, 3, 4)] = L.Tile(L.TileShape(3))
        lev.add_entity(5.0, 6.0, L.Entity(), 200)
        return L.level_bytes(lev)
    w = writer()
    w.write_var_file(kind.encode(), variables)
    return finish(w)


def file_vars(kind, data):
    r = DFReader(io.BytesIO(data))
    if kind == "DF_LVL":
        return r.read_level(metadata_only=True).variables
    return r.read_var_file(kind.encode())


def run(ctx, case):
    k = case["k"]
    if k == "conv":
        v, want = build(ctx, case["t"], "v")
        schema, doc = variables_to_json(v)
        check_same(ctx, v, want, "original")
        check_same(ctx, json_to_variables(schema, doc), want, "converted")
        ctx.put_json("doc", {"schema": schema, "vars": doc})
        return
    if k == "uneven":
        v, want = build(ctx, case["t"], "v")
        try:
            schema, doc = variables_to_json(v)
            back = json_to_variables(schema, doc)
        except ValueError:
            return
        check_same(ctx, back, want, "converted")
        return
    if k == "new":
        m, want = build_map(ctx, [["k", "i"], ["m", ["a", "s", ["s1"]]]], "m")
        schema, doc = variables_to_json(VariableStruct(m))
        ctx.put_json("doc", {"schema": schema, "vars": doc})
        rc = cli.run_tool(ctx, "variables", ["--header", case["h"], ctx.path("obj"), ctx.path("doc")])
        ctx.check(rc == 0, "exit code")
        check_map(ctx, file_vars(case["h"], ctx.get_file("obj")), want, "new file")
        return
    m, want = build_map(ctx, case["m"], "m")
    data = make_file(case["kind"], m)
    ctx.put_file("obj", data)
    if k == "file":
        rc, doc = cli.show_json(ctx, [ctx.path("obj")])
        ctx.check(rc == 0, "exit code of printing")
        ctx.check(len(doc) == 2 and "vars" in doc and "schema" in doc, "document has schema and vars")
        ctx.check(ctx.get_file("obj") == data, "printing leaves the file alone")
        check_same(ctx, json_to_variables(doc["schema"], doc["vars"]), (VS.ref.STRUCT, want), "printed")
        ctx.put_json("doc", doc)
        rc = cli.run_tool(ctx, "variables", [ctx.path("obj"), ctx.path("doc")])
        ctx.check(rc == 0, "exit code of updating")
        ctx.check(ctx.get_file("obj") == data, "printing and updating reproduces the file")
        return
    n, nwant = build_map(ctx, case["n"], "n")
    schema, doc = variables_to_json(VariableStruct(n))
    ctx.put_json("doc", {"schema": schema, "vars": doc})
    rc = cli.run_tool(ctx, "variables", [ctx.path("obj"), ctx.path("doc")])
    ctx.check(rc == 0, "exit code of updating")
    ctx.check(ctx.get_file("obj") == make_file(case["kind"], n), "only the variables are replaced")
    check_map(ctx, file_vars(case["kind"], ctx.get_file("obj")), nwant, "updated")
