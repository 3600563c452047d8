ID="c24_palette_ignored"; PROPERTY="C24"
NEEDS="two neighbouring tiles of the same kind with different palettes"
BREAKS="the edge between tiles that differ only in palette is hidden on both sides"
EDITS=[("dustmaker/level.py",'''                if (tile.sprite_set, tile.sprite_tile, tile.sprite_palette) == (
                    ntile.sprite_set,
                    ntile.sprite_tile,
                    ntile.sprite_palette,
                ):
''','''                if (tile.sprite_set, tile.sprite_tile) == (
                    ntile.sprite_set,
                    ntile.sprite_tile,
                ):
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.tile import *
lev = Level()
lev.tiles[(19, 0, 0)] = Tile(sprite_palette=1); lev.tiles[(19, 1, 0)] = Tile(sprite_palette=2)
lev.calculate_edge_visibility()
assert lev.tiles[(19, 0, 0)].edge_data[TileSide.RIGHT].visible
'''
