"""Building and comparing level content with arbitrary field values."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.entity import Entity
from dustmaker.level import Level
from dustmaker.prop import Prop
from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet

EDGE_FIELDS = ("solid", "visible", "caps", "angles")
FILTH_FIELDS = ("filth_sprite_set", "filth_spike", "filth_caps", "filth_angles")


def level_bytes(level):
    with DFWriter(io.BytesIO()) as w:
        w.write_level(level)
        return w.data.getvalue()


def level_from(data):
    return DFReader(io.BytesIO(data)).read_level()


def round_trip(level):
    return level_from(level_bytes(level))


def edge(ctx, name, full=True):
    e = TileEdgeData()
    e.solid = ctx.bool(name + ".solid")
    e.visible = ctx.bool(name + ".vis")
    e.caps = (ctx.bool(name + ".c0"), ctx.bool(name + ".c1"))
    e.angles = (ctx.s(name + ".a0", 8), ctx.s(name + ".a1", 8))
    if full:
        filth(ctx, e, name)
    return e


def filth(ctx, e, name):
    e.filth_sprite_set = ctx.enum(name + ".fs", TileSpriteSet)
    e.filth_spike = ctx.bool(name + ".fk")
    e.filth_caps = (ctx.bool(name + ".fc0"), ctx.bool(name + ".fc1"))
    e.filth_angles = (ctx.s(name + ".fa0", 8), ctx.s(name + ".fa1", 8))


def tile(ctx, name, shape=None, full=True):
    """A tile whose every attribute is arbitrary (shape fixed when given)."""
    t = Tile(
        ctx.enum(name + ".shape", TileShape) if shape is None else TileShape(shape),
        tile_flags=ctx.u(name + ".flags", 3),
        sprite_set=ctx.enum(name + ".sset", TileSpriteSet),
        sprite_tile=ctx.u(name + ".stile", 8),
        sprite_palette=ctx.u(name + ".spal", 4),
    )
    t.edge_data = [edge(ctx, "%s.e%d" % (name, i), full) for i in range(4)]
    return t


def snap_edge(e):
    return tuple(getattr(e, f) for f in EDGE_FIELDS + FILTH_FIELDS)


def snap_tile(t):
    """Value snapshot of a tile (it may be mutated later)."""
    return {
        "shape": t.shape, "tile_flags": t.tile_flags, "sprite_set": t.sprite_set,
        "sprite_tile": t.sprite_tile, "sprite_palette": t.sprite_palette,
        "edges": [snap_edge(e) for e in t.edge_data],
    }


def check_edge(ctx, got, want, msg, filth_too=True):
    fields = EDGE_FIELDS + (FILTH_FIELDS if filth_too else ())
    for i, f in enumerate(fields):
        g, w = getattr(got, f), want[i]
        if f.endswith("caps") or f.endswith("angles"):
            ctx.check(len(g) == 2, "%s.%s: pair" % (msg, f))
            ctx.check(g[0] == w[0], "%s.%s first corner" % (msg, f))
            ctx.check(g[1] == w[1], "%s.%s second corner" % (msg, f))
        else:
            ctx.check(g == w, "%s.%s" % (msg, f))


SIDES = ("top", "bottom", "left", "right")


def check_tile(ctx, got, want, msg, filth_too=True):
    for f in ("shape", "tile_flags", "sprite_set", "sprite_tile", "sprite_palette"):
        ctx.check(getattr(got, f) == want[f], "%s.%s" % (msg, f))
    ctx.check(len(got.edge_data) == 4, msg + ": four edges")
    for i in range(4):
        check_edge(ctx, got.edge_data[i], want["edges"][i], "%s %s edge" % (msg, SIDES[i]), filth_too)


def has_filth(t):
    return any([e.filth_sprite_set != 0 for e in t.edge_data])


PROP_FIELDS = ("layer_sub", "rotation", "flip_x", "flip_y", "scale", "prop_set", "prop_group",
               "prop_index", "palette")


def prop(ctx, name, scale=1.0):
    return Prop(
        ctx.u(name + ".sub", 8), ctx.u(name + ".rot", 16), ctx.bool(name + ".fx"), ctx.bool(name + ".fy"),
        scale, ctx.u(name + ".set", 8), ctx.u(name + ".grp", 12), ctx.u(name + ".idx", 12),
        ctx.u(name + ".pal", 8),
    )


def snap_prop(p):
    return {f: getattr(p, f) for f in PROP_FIELDS}


def check_prop(ctx, got, want, msg, skip=()):
    for f in PROP_FIELDS:
        if f not in skip:
            ctx.check(getattr(got, f) == want[f], "%s.%s" % (msg, f))


ENT_FIELDS = ("etype", "rotation", "layer", "flip_x", "flip_y", "visible")


def entity(ctx, name, variables=None, cls=Entity, etype=None):
    e = cls(variables, ctx.u(name + ".rot", 16), ctx.u(name + ".layer", 8), ctx.bool(name + ".fx"),
            ctx.bool(name + ".fy"), ctx.bool(name + ".vis"))
    if etype is not None:
        e.etype = etype
    return e


def snap_entity(e):
    return {f: getattr(e, f) for f in ENT_FIELDS}


def check_entity(ctx, got, want, msg, skip=()):
    for f in ENT_FIELDS:
        if f not in skip:
            ctx.check(getattr(got, f) == want[f], "%s.%s" % (msg, f))


def empty_level():
    return Level()
