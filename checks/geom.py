"""Tile geometry written down from the shape reference images, in half-tile units (y down)."""

# top-left, top-right, bottom-right, bottom-left
VERTS = (
    ((0, 0), (2, 0), (2, 2), (0, 2)),
    ((0, 0), (2, 1), (2, 2), (0, 2)), ((0, 1), (2, 2), (2, 2), (0, 2)),
    ((0, 0), (2, 0), (1, 2), (0, 2)), ((0, 0), (1, 0), (0, 2), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (0, 1)), ((0, 0), (2, 0), (2, 1), (0, 0)),
    ((1, 0), (2, 0), (2, 2), (0, 2)), ((2, 0), (2, 0), (2, 2), (1, 2)),
    ((0, 1), (2, 0), (2, 2), (0, 2)), ((0, 2), (2, 1), (2, 2), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (1, 2)), ((1, 0), (2, 0), (2, 2), (2, 2)),
    ((0, 0), (2, 0), (2, 1), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 1)),
    ((0, 0), (1, 0), (2, 2), (0, 2)), ((0, 0), (0, 0), (1, 2), (0, 2)),
    ((0, 0), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (0, 0)), ((0, 2), (2, 0), (2, 2), (0, 2)),
)
CW = (0, 2, 3, 1)  # top, bottom, left, right in clockwise order
LINEAR = ((1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0),
          (-1, 0, 0, 1), (0, -1, -1, 0), (1, 0, 0, -1), (0, 1, 1, 0))  # 4..7: horizontal flip, then turns


def ends(shape, side):
    """Clockwise end points of a side."""
    i = CW[side]
    return VERTS[shape][i], VERTS[shape][(i + 1) % 4]


def exists(shape, side):
    """Sides of half length or none carry no edge."""
    a, b = ends(shape, side)
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1


def side_at(shape, a, b):
    """The side of a shape running clockwise from a to b, or None."""
    for s in range(4):
        if exists(shape, s) and ends(shape, s) == (a, b):
            return s
    return None


def spin(lin, p):
    """Transform a vertex about the tile centre."""
    a, b, c, d = lin
    x, y = p[0] - 1, p[1] - 1
    return a * x + b * y + 1, c * x + d * y + 1


def moved_shape(shape, lin):
    """The shape whose outline is the transformed outline."""
    want = set([spin(lin, p) for p in VERTS[shape]])
    for s in range(21):
        if set(VERTS[s]) == want:
            return s
    return None


def moved_side(shape, lin, side):
    """Side of the transformed shape where a side ends up."""
    a, b = ends(shape, side)
    a, b = spin(lin, a), spin(lin, b)
    if lin[0] * lin[3] - lin[1] * lin[2] < 0:
        a, b = b, a
    return side_at(moved_shape(shape, lin), a, b)


def flipped(lin):
    return lin[0] * lin[3] - lin[1] * lin[2] < 0


def inside(shape, x, y, unit):
    """Whether a point (in units of 1/unit half tiles) lies in the shape."""
    vs = VERTS[shape]
    for i in range(4):
        a, b = vs[i], vs[(i + 1) % 4]
        if a == b:
            continue
        cross = (b[0] - a[0]) * (y - a[1] * unit) - (b[1] - a[1]) * (x - a[0] * unit)
        if cross < 0:
            return False
    return True
