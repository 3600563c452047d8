ID="c36_shared_variables"; PROPERTY="C36"
NEEDS="two entities created from the same variables, one of which later changes an array inside"
BREAKS="entities created from the same variables share the arrays and structs inside them"
EDITS=[("dustmaker/entity.py",'''        self.variables = copy.deepcopy(variables) if variables is not None else {}
''','''        self.variables = copy.copy(variables) if variables is not None else {}
''')]
DEMO='''
from dustmaker.entity import AIController
from dustmaker.variable import *
v = {"nodes": VariableArray(VariableVec2, [VariableVec2((1.0, 2.0))])}
a, b = AIController(v), AIController(v)
a.nodes.append((3.0, 4.0))
assert len(b.nodes) == 1 and len(v["nodes"]) == 1
'''
