ID="c03_skip_in_buffer"; PROPERTY="C03"
NEEDS="a seek into the middle of a byte, a skip to the end of that byte without reading, then a block of bytes"
BREAKS="skipping within the current byte forgets that the byte was never fetched"
EDITS=[("dustmaker/bitio.py",'''        self.bit_seek(self._tell + bits)

    def bit_tell''','''        if 0 < bits <= self._bits_left:
            # Still within the current byte, no need to seek
            self._bits >>= bits
            self._bits_left -= bits
            self._tell += bits
            return
        self.bit_seek(self._tell + bits)

    def bit_tell''')]
DEMO='''
import io
from dustmaker.bitio import BitIOReader
r = BitIOReader(io.BytesIO(bytes(range(1, 9))))
r.bit_seek(11); r.skip(5)
assert r.bit_tell() == 16
assert r.read_bytes(2) == bytes((3, 4))
'''
