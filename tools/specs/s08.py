ID="c08_exact_multiple"; PROPERTY="C08"
NEEDS="a struct string whose length is an exact multiple of 65535 followed by another member"
BREAKS="the terminating empty continuation of an exactly chunk-sized string is omitted, so the next member is swallowed"
EDITS=[("dustmaker/dfwriter.py","""                xs = elem_var.value
                for i in range(0, 1 + len(xs) // max_width):
""","""                xs = elem_var.value
                num_parts = (len(xs) + max_width - 1) // max_width
                for i in range(0, max(1, num_parts)):
""")]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.variable import VariableString, VariableBool
for n in (65534, 65535, 65536, 131070):
    m = {"a": VariableString(b"x" * n), "b": VariableBool(True)}
    b = io.BytesIO(); w = DFWriter(b, noclose=True); w.write_var_file(b"H", m); w.close()
    got = DFReader(io.BytesIO(b.getvalue())).read_var_file(b"H")
    assert set(got) == {"a", "b"} and got["a"].value == m["a"].value and got["b"].value is True, n
'''
