ID="c30_empty_array_lost"; PROPERTY="C30"
NEEDS="getting an array property while the stored array is still empty, then filling the array obtained first"
BREAKS="an empty stored array counts as absent and is replaced on every access, so what is added to it is lost"
EDITS=[("dustmaker/entity.py",'''        if var is None:
            result = default() if callable(default) else default
''','''        if not var:
            result = default() if callable(default) else default
''')]
DEMO='''
from dustmaker.entity import AIController
c = AIController()
nodes, again = c.nodes, c.nodes
nodes.append((1.0, 2.0))
assert list(c.nodes) == [(1.0, 2.0)]
'''
