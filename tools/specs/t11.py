ID="c11_scale_truncated"; PROPERTY="C11"
NEEDS="a prop size whose logarithm comes out just below a whole step"
BREAKS="some of the sizes the format can store are read back one step smaller"
EDITS=[("dustmaker/dfwriter.py",'''                scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32
''','''                scale_lg = int(log(prop.scale) / log(50.0) * 24.0 + 32)
''')]
DEMO='''
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.prop import Prop
lev = Level()
for k in range(55):
    lev.add_prop(5, 10.0, 10.0, Prop(0, 0, False, False, pow(50.0, (k - 32.0) / 24.0), 1, 1, 1, 0), id_num=200 + k)
got = read_level(write_level(lev))
for k in range(55):
    assert abs(got.props[200 + k][3].scale - lev.props[200 + k][3].scale) < 1e-9, k
'''
