ID="c36_upscale_one_shared"; PROPERTY="C36"
NEEDS="upscaling a tile by one and then changing an edge of the result"
BREAKS="a tile upscaled by the factor one shares its edges with the original"
EDITS=[("dustmaker/tile.py",'''            yield 0, 0, copy.deepcopy(self)
''','''            yield 0, 0, copy.copy(self)
''')]
DEMO='''
from dustmaker.tile import Tile
t = Tile()
for _, _, n in t.upscale(1):
    n.edge_data[0].solid = True
assert not t.edge_data[0].solid
'''
