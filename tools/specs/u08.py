ID='c08_array_tail'
PROPERTY='C08'
NEEDS='an array whose last string is an exact multiple of the chunk size'
BREAKS="the array's entry count is one too small"
EDITS=[('dustmaker/dfwriter.py', '                for x in arr:\n                    arrlen += len(x.value) // max_width\n', '                for x in arr:\n                    arrlen += max(len(x.value) - 1, 0) // max_width\n'), ('dustmaker/dfwriter.py', '                    for i in range(0, 1 + len(xs) // max_width):\n                        self.write_variable(', '                    for i in range(0, 1 + max(len(xs) - 1, 0) // max_width):\n                        self.write_variable(')]
DEMO='\nimport io\nfrom dustmaker import DFReader, DFWriter\nfrom dustmaker.variable import *\nb=io.BytesIO()\nv={"a":VariableArray(VariableString,[VariableString(b"x"*65535),VariableString(b"y")])}\nwith DFWriter(b,noclose=True) as w: w.write_var_file(b"",v)\nb.seek(0)\nassert DFReader(b).read_var_file(b"")==v\n'
