ID="c22_start_rounding"; PROPERTY="C22"
NEEDS="a player start at an odd position moved by half pixels, or mirrored to a negative position"
BREAKS="player starts on one side of the axis end up a pixel off after a shift by a fraction"
EDITS=[("dustmaker/level.py",'''            pos.x, pos.y = int(round(pos_tx)), int(round(pos_ty))
''','''            pos.x, pos.y = int(pos_tx + 0.5), int(pos_ty + 0.5)
''')]
DEMO='''
from dustmaker.level import Level
lev = Level()
p = lev.start_position(3); p.x, p.y = 7, -9
lev.flip_horizontal()
p = lev.start_position(3)
assert (p.x, p.y) == (-7, -9), (p.x, p.y)
lev.rotate(2)
p = lev.start_position(3)
assert (p.x, p.y) == (7, 9), (p.x, p.y)
'''
