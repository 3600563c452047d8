ID='c36_array_alias'
PROPERTY='C36'
NEEDS='two arrays created from the same list'
BREAKS='arrays created from a list keep and share that list'
EDITS=[('dustmaker/variable.py', '        super().__init__((element_type, list(values or [])))', '        super().__init__((element_type, [] if values is None else values))')]
DEMO='\nfrom dustmaker.variable import *\nbase=[VariableInt(1)]\na=VariableArray(VariableInt,base); b=VariableArray(VariableInt,base)\na.append(2)\nassert len(b)==1 and len(base)==1\n'
