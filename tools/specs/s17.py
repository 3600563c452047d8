ID="c17_run_exact"; PROPERTY="C17"
NEEDS="an input held for exactly 510 frames (a multiple of the longest run)"
BREAKS="a run whose length is a multiple of 255 is written with an additional frame"
EDITS=[("dustmaker/dfwriter.py",'''                        if count <= 0xFF:
                            sub_writer.write(8, count - 1)
                            run_lengths.pop()
                        else:
                            sub_writer.write(8, 0xFE)
                            run_lengths[-1] = (count - 0xFF, value)
''','''                        if count < 0xFF or len(run_lengths) == 1 and count == 0xFF:
                            sub_writer.write(8, count - 1)
                            run_lengths.pop()
                        else:
                            sub_writer.write(8, 0xFE)
                            run_lengths[-1] = (max(1, count - 0xFF), value)
''')]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import *
for n in (254, 255, 256, 509, 510, 511):
    vals = [1] * n + [-1, 0, 1]
    rep = Replay(version=1, username=b"u", level=b"l", frames=n, players=[PlayerData(character=Character.DUSTMAN, intents={IntentStream.X: list(vals)})])
    b = io.BytesIO()
    with DFWriter(b, noclose=True) as w:
        w.write_replay(rep)
    got = DFReader(io.BytesIO(b.getvalue())).read_replay()
    assert [got.players[0].get_intent_value(IntentStream.X, i) for i in range(n + 3)] == vals, n
'''
