"""Writes DESIGN.md from tools/design_text.md, the bounds in checks/cNN.py and seeded/*/meta.json."""

import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools import props  # noqa: E402

# property -> (what is executed symbolically, oracle)
HOW = {
"C01": ("BitIOWriter then BitIOReader over the same BytesIO, all widths/alignments as cases, all values symbolic", "identity: value read == value written, neighbours too"),
"C02": ("writer output and reader results as bit-vector terms", "an explicit bit-by-bit layout (bit k at (p+k)//8, (p+k)%8) built in the harness"),
"C03": ("every operation sequence up to the bound run on the reader over symbolic bytes; seek targets symbolic", "position arithmetic and bit extraction in the harness"),
"C04": ("every operation sequence up to the bound run on the writer; values and seek targets symbolic", "an overlay model: one slot per bit, fields placed at the position the writer reported"),
"C05": ("write_6bit_str/read_6bit_str on symbolic text (code points are symbolic up to 0x10FFFF, Unicode character classes are exact range terms)", "identity / must raise ValueError"),
"C06": ("write_float/read_float on symbolic dyadic numbers m/2^k", "identity"),
"C07": ("write_variable/read_variable over enumerated tree shapes with symbolic leaves, keys, lengths", "identity incl. classes and order, plus an independent encoder of the variable format"),
"C08": ("struct members and array elements of listed lengths; bytes around the chunk boundaries symbolic", "identity incl. the neighbour"),
"C09": ("write_var_file/read_var_file", "identity; recorded size == bytes produced; wrong header => LevelParseException"),
"C10": ("write_level/read_level, positions, layers and every tile attribute symbolic", "identity of the tile dictionary"),
"C11": ("the same for props", "identity, position truncated"),
"C12": ("the same for entities, type names symbolic text", "identity incl. class"),
"C13": ("whole levels, several per stream", "identity of every part; metadata_only; stream extents"),
"C14": ("read_level_ex + write_level_ex with symbolic opaque region bytes", "region bytes and directory identical; declared size right; full re-read"),
"C15": ("write_level output", "an independent level encoder written from the format description (checks/fmt.py), compared byte by byte as terms"),
"C16": ("write_level, segment headers decoded", "totals recomputed in the harness from the content; filth table per enemy"),
"C17": ("write_replay/read_replay; runs with symbolic values, symbolic frames", "identity (padded with the neutral value)"),
"C18": ("write_replay output / read_replay of generated files", "independent replay decoder and encoder in the harness"),
"C19": ("TxMatrix over symbolic entries", "affine algebra over exact rationals"),
"C20": ("Tile.transform, shape and map symbolic", "geometry: vertices of the shape mapped by the matrix; edges identified by their end points (checks/geom.py)"),
"C21": ("Tile.upscale", "area membership of each sub-tile's polygon in the enlarged polygon, edges by end points"),
"C22": ("Level.transform/translate/rotate/flip/upscale", "the same affine map applied to tile centers, props, entities, starts; group laws; rigid displacement of tile pairs under arbitrary offsets"),
"C23": ("Level.transform over levels with each entity type", "stored points/sizes mapped by the matrix; everything else unchanged"),
"C24": ("Level.calculate_edge_visibility on small neighbourhoods, shapes enumerated, sprites/flags symbolic", "the documented rules evaluated from the geometry"),
"C25": ("Level.calculate_edge_caps likewise", "the documented rules evaluated from the geometry (join candidates, turn angles)"),
"C26": ("add/read/merge/remap/calculate_max_id histories with symbolic ids", "new id not among the used ones and >= reserved minimum; exceptions leave state alone"),
"C27": ("remap_ids/merge histories with symbolic ids and references", "content equality, reference graph isomorphism, no aliasing"),
"C28": ("__eq__/__hash__ on symbolic pairs", "structural equality in the harness; hash equality when equal"),
"C29": ("VariableArray operations with symbolic index/value", "a plain Python list (Python semantics of the engine's list model is the interpreter's own)"),
"C30": ("every accessor of every class via introspection + a table of names, types, defaults", "table in the harness"),
"C31": ("variables_to_json/json_to_variables/Variables CLI", "tree equality, byte equality of files"),
"C32": ("CLI main() functions on a virtual file system", "expected file table: other files untouched, regions carried over, failed edits leave the file alone"),
"C33": ("read_level over files from an independent encoder with symbolic junk", "the content given to the encoder"),
"C34": ("read_* on damaged files", "must raise the given exception; path exploration ends (bounded steps)"),
"C35": ("migrate_stats and SaveConvert.main", "recomputed entries, key counts and order"),
"C36": ("save twice / load-save / mutate one object", "deep snapshot equality, byte equality"),
}

# seed -> what had to be strengthened before it was caught
FIRST_MISSED = {
    "c05_unicode_digits": "text model got the exact Unicode character classes",
    "c13_size_absolute": "C13 now checks the extent of every level in a shared stream",
    "c16_surface_spikes": "C16's assumption on spike flags dropped",
    "c30_empty_array_lost": "C30 now fetches empty stored arrays twice",
    "c35_duplicate_scores": "C35 got cases with two scores of one level",
    "c27_shallow_entities": "C27 now changes merged variables afterwards",
    "c12_type_by_prefix": "C12 got names one character away from registered ones",
    "c19_scale_only": "engine: integer * tuple subclass now dispatches to __rmul__",
    "c36_array_alias": "C36 got boxed variables inside arrays and structs changed on one side",
    "c16_unlisted_enemy": "C16 got user defined enemy classes with arbitrary filth",
    "c31_short_schema": "C31 got arrays and structs of more than ten members",
    "c29_del_slice": "C29 got deletion by slice; engine: list.index with bounds",
    "c32_shift_whole": "C32 got shifts by fractions of a pixel",
    "c05_upper_folded": "text model got the exact Unicode case mappings",
    "c14_region_chunks": "C14 got region data in chunks with empty ones between",
    "c26_backdrop_counter": "C26 got ids written directly, then recomputed without reset",
}


def const(pid, name, default):
    text = open(os.path.join(ROOT, "checks", pid.lower() + ".py")).read()
    import ast
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == name:
            try:
                return ast.literal_eval(node.value)
            except ValueError:
                return default
    return default


def main():
    rows = []
    for p in props.PROPS:
        pid = p["id"]
        b = const(pid, "BOUNDS", {})
        what, oracle = HOW.get(pid, ("see checks/%s.py" % pid.lower(), "see the harness"))
        rows.append("### %s %s\n\n* executed: %s\n* oracle: %s\n* bounds, quick: %s\n* bounds, thorough: %s\n* outside: %s\n" % (
            pid, p["title"], what, oracle, b.get("quick", "?"), b.get("thorough", "?"), const(pid, "OUTSIDE", "?")))
    seeds = ["| change | property | needs | result |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        sid = os.path.basename(os.path.dirname(d))
        res = "caught by %s" % m["property"]
        if sid in FIRST_MISSED:
            res += " (missed at first; %s)" % FIRST_MISSED[sid]
        seeds.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"], res))
    fixed = []
    for f in json.load(open(os.path.join(ROOT, "known_findings.json"))).values():
        if isinstance(f, list):
            fixed = ["* " + re.sub("^fixed: property=", "", e["what"]) for e in f]
    text = open(os.path.join(ROOT, "tools", "design_text.md")).read()
    for k, v in (("PROPERTY_TABLE", rows), ("SEED_TABLE", seeds), ("FIXED_TABLE", fixed)):
        text = text.replace(k, "\n".join(v))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


main()
