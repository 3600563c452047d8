ID="c22_backdrop_props_only"; PROPERTY="C22"
NEEDS="a level whose backdrop holds props but no tiles"
BREAKS="a backdrop without tiles is not transformed, so its props stay behind"
EDITS=[("dustmaker/level.py",'''        if self.backdrop is not None:
            self.backdrop.transform(mat)
''','''        if self.backdrop is not None and self.backdrop.tiles:
            self.backdrop.transform(mat)
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.prop import Prop
lev = Level(); lev.backdrop.add_prop(2, 30.0, 40.0, Prop(0, 0, False, False, 1.0, 1, 1, 1, 0), id_num=150)
lev.flip_horizontal()
assert lev.backdrop.props[150][1:3] == (-30.0, 40.0)
'''
