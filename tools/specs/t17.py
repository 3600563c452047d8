ID="c17_trailing_left"; PROPERTY="C17"
NEEDS="an input stream that ends with a direction held to the left or up"
BREAKS="a final run with bits zero is dropped although zero is not neutral for directions"
EDITS=[("dustmaker/dfwriter.py",'''                    if len(run_lengths) > 1 and run_lengths[-1][
                        1
                    ] == intent_meta.to_bits(intent_meta.default):
                        run_lengths.pop()
''','''                    if len(run_lengths) > 1 and not run_lengths[-1][1]:
                        run_lengths.pop()
''')]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import *
vals = [0, 1, 1, -1, -1]
rep = Replay(version=1, level=b"l", frames=5, players=[PlayerData(intents={IntentStream.X: list(vals)})])
b = io.BytesIO()
with DFWriter(b, noclose=True) as w:
    w.write_replay(rep)
got = DFReader(io.BytesIO(b.getvalue())).read_replay()
assert [got.players[0].get_intent_value(IntentStream.X, i) for i in range(5)] == vals
'''
