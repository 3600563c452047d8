ID="c23_scale_sign"; PROPERTY="C23"
NEEDS="an enemy with a stored scale in a level that is mirrored or turned by half"
BREAKS="the size of hittable entities becomes negative when the level is turned upside down"
EDITS=[("dustmaker/entity.py",'''        self.scale = self.scale * mat.scale
''','''        self.scale = self.scale * (mat[1][1] or mat.scale)
''')]
DEMO='''
from dustmaker.entity import EnemyBear
from dustmaker.transform import TxMatrix
e = EnemyBear(); e.scale = 2.0
e.transform(TxMatrix.ROTATE[2])
assert e.scale == 2.0, e.scale
'''
