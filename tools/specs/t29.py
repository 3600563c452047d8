ID="c29_setitem_unchecked"; PROPERTY="C29"
NEEDS="assigning a value of the wrong type to an existing element"
BREAKS="element assignment replaces the value inside the element without checking it"
EDITS=[("dustmaker/variable.py",'''        self.value[1][key] = self._box(val)
''','''        if self.value[0] is VariableArray:
            self.value[1][key] = self._box(val)
        else:
            self.value[1][key].value = val
''')]
DEMO='''
from dustmaker.variable import *
a = VariableArray(VariableInt, [VariableInt(1)])
try:
    a[0] = "text"
except (AssertionError, ValueError, TypeError):
    pass
assert a[0] == 1
'''
