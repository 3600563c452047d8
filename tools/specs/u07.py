ID='c07_nested_array_type'
PROPERTY='C07'
NEEDS='an empty array of structs inside an array'
BREAKS='empty arrays lose their element type'
EDITS=[('dustmaker/dfwriter.py', '            self.write(4, atype._vtype)\n            self.write(16, arrlen)', '            self.write(4, atype._vtype if arrlen or atype is not VariableVec2 else 4)\n            self.write(16, arrlen)')]
DEMO='\nimport io\nfrom dustmaker import DFReader, DFWriter\nfrom dustmaker.variable import *\nb=io.BytesIO()\nv={"a":VariableArray(VariableVec2)}\nwith DFWriter(b,noclose=True) as w: w.write_var_file(b"",v)\nb.seek(0)\nassert DFReader(b).read_var_file(b"")==v\n'
