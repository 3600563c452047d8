ID="c18_input_length"; PROPERTY="C18"
NEEDS="looking at the recorded length of the input section, which this library does not use itself"
BREAKS="the recorded length of the input section includes the length field"
EDITS=[("dustmaker/dfwriter.py",'''            sub_writer.write(32, (pos - 32) // 8)
            sub_writer.bit_seek(pos)
''','''            sub_writer.write(32, pos // 8)
            sub_writer.bit_seek(pos)
''')]
DEMO='''
import io, zlib
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import *
rep = Replay(version=1, level=b"l", frames=5, players=[PlayerData(intents={})])
b = io.BytesIO()
with DFWriter(b, noclose=True) as w:
    w.write_replay(rep)
d = b.getvalue()
sub = zlib.decompress(d[7 + 10 + 1 + 2:])
assert int.from_bytes(sub[:4], "little") == len(sub) - 8, (sub[:4], len(sub))
'''
