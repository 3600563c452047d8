ID="c20_full_flip_turn"; PROPERTY="C20"
NEEDS="a full tile with different edges that is mirrored and turned by a quarter in one step"
BREAKS="the edges of full tiles end up on the opposite sides when a mirror image is combined with a quarter turn"
EDITS=[("dustmaker/tile.py",'''                i = (i - angle) & 3
''','''                i = (i + (angle if flipped else -angle)) & 3
''')]
DEMO='''
from dustmaker.tile import *
from dustmaker.transform import TxMatrix
a = Tile(); b = Tile()
for t in (a, b):
    for i, e in enumerate(t.edge_data):
        e.angles = (i + 1, 10 + i)
a.transform(TxMatrix.ROTATE[1] * TxMatrix.HFLIP)
b.transform(TxMatrix.HFLIP); b.transform(TxMatrix.ROTATE[1])
assert a == b
'''
