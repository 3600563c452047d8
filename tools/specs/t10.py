ID="c10_dust_last_layer"; PROPERTY="C10"
NEEDS="a filthy collision tile in a segment that also has a tile on layer 20"
BREAKS="filth is attached to tiles of the last layer read instead of the collision layer"
EDITS=[("dustmaker/dfreader.py",'''                tile = level.tiles.get((19, xoffset + txpos, yoffset + typos))
''','''                tile = level.tiles.get((layer, xoffset + txpos, yoffset + typos))
''')]
DEMO='''
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.tile import *
lev = Level(); t = Tile(); t.edge_data[0].filth_sprite_set = TileSpriteSet.FOREST
lev.tiles[(19, 3, 3)] = t; lev.tiles[(20, 9, 3)] = Tile()
assert read_level(write_level(lev)).tiles == lev.tiles
'''
