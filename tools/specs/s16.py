ID="c16_surface_spikes"; PROPERTY="C16"
NEEDS="an edge that carries spikes without any filth sprite, next to ordinary edges"
BREAKS="edges with a spike flag but no filth count as spiky in one total and not in the other"
EDITS=[("dustmaker/dfwriter.py",'''                            if edge.filth_spike:
                                continue

                            if edge.filth_sprite_set != TileSpriteSet.NONE_0:
                                dust_filth += 1
''','''                            filth = edge.filth_sprite_set != TileSpriteSet.NONE_0
                            if filth and edge.filth_spike:
                                continue

                            if filth:
                                dust_filth += 1
''')]
DEMO='''
import io
from dustmaker.dfwriter import DFWriter
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.tile import Tile
import zlib
lev = Level(); t = Tile()
for e in t.edge_data: e.solid = e.visible = True
t.edge_data[1].filth_spike = True
lev.tiles[(19, 3, 3)] = t
r = DFReader(io.BytesIO(write_level(lev)))
_, offs = r.read_level_ex()
raw = r.read_bytes(offs[-1])
seg = zlib.decompress(raw[17:])
assert int.from_bytes(seg[17:19], "little") == 3, seg[:25]
'''
