ID="c23_killbox_partial"; PROPERTY="C23"
NEEDS="a death zone with only a height stored, rotated by a quarter turn"
BREAKS="the size of a death zone is only mapped when its width is stored"
EDITS=[("dustmaker/entity.py",'''        tw, th = mat.sample(self.width, self.height, with_offset=False)
        self.width = int(abs(tw))
''','''        if not self.width:
            # Not set up yet
            self.height = int(self.height * mat.scale)
            return
        tw, th = mat.sample(self.width, self.height, with_offset=False)
        self.width = int(abs(tw))
''')]
DEMO='''
from dustmaker.entity import DeathZone
from dustmaker.transform import TxMatrix
d = DeathZone(); d.height = 96
d.transform(TxMatrix.ROTATE[1])
assert (d.width, d.height) == (96, 0), (d.width, d.height)
'''
