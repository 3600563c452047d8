ID="c27_shallow_entities"; PROPERTY="C27"
NEEDS="changing an array inside an entity of the merged level afterwards"
BREAKS="merged entities share their variables with the level they came from"
EDITS=[("dustmaker/level.py",'''        self.entities.update(copy.deepcopy(other_level.entities))
''','''        for id_num, (x, y, entity) in other_level.entities.items():
            entity = copy.copy(entity)
            entity.variables = dict(entity.variables)
            self.entities[id_num] = (x, y, entity)
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.entity import AIController
a, b = Level(), Level()
c = AIController(); c.nodes.append((1.0, 2.0))
b.add_entity(0.0, 0.0, c, id_num=300)
a.merge(b)
c.nodes.append((3.0, 4.0))
assert all(len(e.nodes) == 1 for _, _, e in a.entities.values())
'''
