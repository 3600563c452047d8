ID="c33_segment_version5"; PROPERTY="C33"
NEEDS="a segment of version 5, which has the filth totals but not the surface totals"
BREAKS="segments of version 5 are read with fields they do not have"
EDITS=[("dustmaker/dfreader.py",'''        if version > 5:
            tile_surface = self.read(16)  # pylint: disable=unused-variable
''','''        if version >= 5:
            tile_surface = self.read(16)  # pylint: disable=unused-variable
''')]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.level import Level
from dustmaker.tile import Tile
b = io.BytesIO()
with DFWriter(b, noclose=True) as w:
    w.write(32, 42); w.write(16, 5); w.write(8, 1); w.write(8, 2); w.write(8, 16)
    w.write(32, 0); w.write(16, 0); w.write(16, 0)
    w.write(32, 1); w.write(8, 1); w.write(8, 19); w.write(10, 1)
    w.write(5, 3); w.write(5, 4); w.write(5, 0); w.write(3, 4); w.write_bytes(Tile()._pack_tile_data())
lev = Level()
DFReader(io.BytesIO(b.getvalue() + bytes(64))).read_segment(lev, 0, 0)
assert set(lev.tiles) == {(19, 19, 36)}, lev.tiles
'''
