ID="c04_seek_here"; PROPERTY="C04"
NEEDS="a seek to the current position while it lies inside a byte"
BREAKS="a seek to the current position skips the refusal of unaligned positions and the flush"
EDITS=[("dustmaker/bitio.py",'''        if not allow_unaligned and (pos & 7) != 0:
            raise RuntimeError(''','''        if pos == self._tell:
            # Nothing to do
            return
        if not allow_unaligned and (pos & 7) != 0:
            raise RuntimeError(''')]
DEMO='''
import io
from dustmaker.bitio import BitIOWriter
w = BitIOWriter(io.BytesIO())
w.write(3, 5)
try:
    w.bit_seek(3)
except RuntimeError:
    pass
else:
    raise SystemExit("unaligned seek accepted")
'''
