ID="c10_full_segment_dust"; PROPERTY="C10"
NEEDS="a segment in which all 256 tiles carry filth"
BREAKS="the filth of a completely filthy segment is dropped on reading because the entry count is cut to 8 bits"
EDITS=[("dustmaker/dfreader.py","""            dusts = self.read(10)
            for _ in range(dusts):""","""            dusts = self.read(8)
            self.read(2)  # upper bits unused, at most 16x16 entries
            for _ in range(dusts):""")]
DEMO='''
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.tile import *
lev = Level()
for i in range(256):
    t = Tile(TileShape.FULL); t.edge_data[i % 4].filth_sprite_set = TileSpriteSet(2)
    lev.tiles[(19, i % 16, i // 16)] = t
got = read_level(write_level(lev))
assert all(t.has_filth() for t in got.tiles.values())
'''
