ID='c29_del_slice'
PROPERTY='C29'
NEEDS='deleting a slice of an array'
BREAKS='deleting a slice fails'
EDITS=[('dustmaker/variable.py', '        del self.value[1][key]\n', '        self.value[1].pop(key)\n')]
DEMO='\nfrom dustmaker.variable import *\na=VariableArray(VariableInt,[VariableInt(i) for i in range(5)])\ndel a[1:3]\nassert list(a)==[0,3,4]\n'
