ID='c07_bool_array_pad'
PROPERTY='C07'
NEEDS='a struct inside an array inside a struct with an empty name'
BREAKS='members with an empty name end the struct'
EDITS=[('dustmaker/dfreader.py', '                var_name = self.read_6bit_str()\n                if vtype != VariableType.STRING:\n', '                var_name = self.read_6bit_str()\n                if not var_name and vtype == VariableType.BOOL:\n                    break\n                if vtype != VariableType.STRING:\n')]
DEMO='\nimport io\nfrom dustmaker.variable import *\nfrom dustmaker.dfreader import DFReader\nfrom dustmaker.dfwriter import DFWriter\nv=VariableStruct({"":VariableBool(True),"a":VariableInt(4)})\nb=io.BytesIO(); w=DFWriter(b,noclose=True); w.write_variable(v); w.close()\nassert DFReader(io.BytesIO(b.getvalue())).read_variable(VariableType.STRUCT)==v\n'
