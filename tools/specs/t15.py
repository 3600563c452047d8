ID="c15_region_order"; PROPERTY="C15"
NEEDS="regions with positive and negative vertical positions in the same column"
BREAKS="regions above the origin are listed before those below it, not after"
EDITS=[("dustmaker/dfwriter.py",'''            if y < 0:
                y += 1 << 16
            return (x, y)
''','''            return (x, y)
''')]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
lev = Level()
for y in (-300, 3, 300):
    lev.tiles[(19, 5, y)] = Tile()
r = DFReader(io.BytesIO(write_level(lev)))
_, offs = r.read_level_ex()
base = r.bit_tell(); ys = []
for o in offs[:-1]:
    r.bit_seek(base + 8 * o + 80); ys.append(r.read(16))
assert ys == sorted(ys), ys
'''
