ID="c36_replay_trimmed"; PROPERTY="C36"
NEEDS="a replay whose input stream ends with neutral frames, used again after it was written"
BREAKS="writing a replay removes the trailing neutral inputs from the replay object"
EDITS=[("dustmaker/dfwriter.py",'''                    run_value = intent_meta.default
                    run_lengths = []
''','''                    run_value = intent_meta.default
                    run_lengths = []
                    values = player.intents.get(replay.IntentStream(intent), [])
                    while values and values[-1] == intent_meta.default:
                        values.pop()
''')]
DEMO='''
import io
from dustmaker.dfwriter import DFWriter
from dustmaker.replay import *
rep = Replay(version=1, level=b"l", frames=5, players=[PlayerData(intents={IntentStream.JUMP: [1, 0, 0]})])
with DFWriter(io.BytesIO()) as w:
    w.write_replay(rep)
assert rep.players[0].intents[IntentStream.JUMP] == [1, 0, 0]
'''
