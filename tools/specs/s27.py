ID="c27_dangling_kept"; PROPERTY="C27"
NEEDS="an AI controller whose puppet no longer exists, with an id that another entity gets by the remapping"
BREAKS="a reference to a missing entity is kept and then leads to an unrelated entity"
EDITS=[("dustmaker/entity.py",'''        self.puppet = id_map.get(self.puppet, 0)
''','''        self.puppet = id_map.get(self.puppet, self.puppet)
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.entity import AIController, Entity
lev = Level()
c = AIController(); c.puppet = 101
lev.add_entity(0.0, 0.0, c, id_num=500)
lev.add_entity(0.0, 0.0, Entity(), id_num=501)
lev.remap_ids()
assert c.puppet not in lev.entities, (c.puppet, list(lev.entities))
'''
