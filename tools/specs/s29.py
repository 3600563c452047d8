ID="c29_insert_negative"; PROPERTY="C29"
NEEDS="inserting into an array at a negative index"
BREAKS="negative insertion indexes count from past the end instead of from the last element"
EDITS=[("dustmaker/variable.py",'''        self.value[1].insert(index, self._box(value))
''','''        elems = self.value[1]
        index = min(max(index, ~len(elems)), len(elems))
        elems[index:index] = [self._box(value)] if index >= 0 else []
        if index < 0:
            elems.insert(index % (len(elems) + 1), self._box(value))
''')]
DEMO='''
from dustmaker.variable import *
for i in range(-5, 6):
    a = VariableArray(VariableInt, [VariableInt(1), VariableInt(2), VariableInt(3)]); b = [1, 2, 3]
    a.insert(i, 9); b.insert(i, 9)
    assert list(a) == b, (i, list(a), b)
'''
