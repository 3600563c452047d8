ID="c09_size_absolute"; PROPERTY="C09"
NEEDS="a variable file written behind other data in the same stream"
BREAKS="the recorded size counts from the start of the stream"
EDITS=[("dustmaker/dfwriter.py",'''        self.write(16, 1)
        self.write(32, (end_index - start_index) // 8)
''','''        self.write(16, 1)
        self.write(32, end_index // 8)
''')]
DEMO='''
import io
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import VariableInt
b = io.BytesIO()
with DFWriter(b, noclose=True) as w:
    w.write_bytes(b"abc")
    w.write_var_file(b"DF_STA", {"k": VariableInt(3)})
d = b.getvalue()
assert int.from_bytes(d[11:15], "little") == len(d) - 3
'''
