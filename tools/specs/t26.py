ID="c26_note_equal"; PROPERTY="C26"
NEEDS="adding an item under exactly the id that would be given out next"
BREAKS="an explicit id equal to the next free id is given out again"
EDITS=[("dustmaker/level.py",'''            self._next_id = max(self._next_id, id_num + 1)
''','''            if id_num > self._next_id:
                self._next_id = id_num + 1
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.entity import Entity
from dustmaker.prop import Prop
lev = Level()
lev.add_entity(0.0, 0.0, Entity(), id_num=100)
i = lev.add_prop(3, 0.0, 0.0, Prop(0, 0, False, False, 1.0, 1, 1, 1, 0))
assert i != 100
'''
