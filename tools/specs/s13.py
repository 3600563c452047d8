ID="c13_size_absolute"; PROPERTY="C13"
NEEDS="a level written after other data in the same stream and read back from there with its raw region data"
BREAKS="the recorded file size counts from the start of the stream instead of the start of the level"
EDITS=[("dustmaker/dfwriter.py",'''        self.write(16, 44)
        self.write(32, (end_index - start_index) // 8)
''','''        self.write(16, 44)
        self.write(32, end_index // 8)
''')]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.level import Level
from dustmaker.tile import Tile
lev = Level(); lev.tiles[(19, 3, 3)] = Tile()
b = io.BytesIO()
with DFWriter(b, noclose=True) as w:
    w.write_level(lev); w.write_level(lev)
data = b.getvalue()
r = DFReader(io.BytesIO(data)); r.bit_seek(len(data) // 2 * 8)
got, offs = r.read_level_ex()
assert r.bit_tell() // 8 + offs[-1] == len(data)
'''
