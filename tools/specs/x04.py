ID='c20_scaled_turn'
PROPERTY='C20'
NEEDS='a quarter turn combined with a scaling'
BREAKS='tiles are not turned when the matrix also scales'
EDITS=[('dustmaker/tile.py', '        angle = int(\n            round(\n                math.atan2(mat[1][1], (-1 if flipped else 1) * mat[1][0]) / math.pi * 2\n            )\n        )\n        angle = (-angle + 1) & 0x3\n', '        angle = {(0, 1): 0, (1, 0): 1, (0, -1): 2, (-1, 0): 3}.get(\n            ((-1 if flipped else 1) * mat[1][0], mat[1][1]), 0\n        )\n')]
DEMO='\nfrom dustmaker.tile import *\nfrom dustmaker.transform import TxMatrix\nfor k in range(4):\n    for sc in (1,2,3):\n        a=Tile(TileShape.BIG_1); b=Tile(TileShape.BIG_1)\n        a.transform(TxMatrix.ROTATE[k]); b.transform(TxMatrix.ROTATE[k]*sc)\n        assert a.shape==b.shape,(k,sc)\n'
