ID="c28_flags_ignored"; PROPERTY="C28"
NEEDS="two tiles that differ only in their flags"
BREAKS="tiles with different flags compare equal"
EDITS=[("dustmaker/tile.py",'''            self.shape,
            self.tile_flags,
            self.edge_data,
''','''            self.shape,
            self.edge_data,
''')]
DEMO='''
from dustmaker.tile import Tile
assert Tile(tile_flags=4) != Tile(tile_flags=6)
'''
