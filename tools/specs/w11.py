ID='c31_short_schema'
PROPERTY='C31'
NEEDS='an array of more than ten arrays of which only a late one has members'
BREAKS='the schema of an array looks at its first ten members only'
EDITS=[('dustmaker/cmd/variables.py', '            schema = merge_schema(schema, [elem_schema])\n', '            if len(jvar) <= 10:\n                schema = merge_schema(schema, [elem_schema])\n')]
DEMO='\nfrom dustmaker.cmd.variables import *\na=VariableArray(VariableArray,[VariableArray(VariableInt,[VariableInt(3)] ) for _ in range(3)]+[VariableArray(VariableInt,[]) for _ in range(9)])\nassert json_to_variables(*variables_to_json(a))==a\nb=VariableArray(VariableStruct,[VariableStruct({}) for _ in range(11)]+[VariableStruct({"k":VariableInt(1)})])\nassert json_to_variables(*variables_to_json(b))==b\n'
