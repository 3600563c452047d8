ID="c01_wide_unaligned"; PROPERTY="C01"
NEEDS="a read that starts mid-byte and ends mid-byte of the same lead byte with bits to spare, after another such read"
BREAKS="buffered bits are not masked when a wide read leaves more than the leftover bits of the last byte"
EDITS=[("dustmaker/bitio.py","""        if self._bits_left == 0:
            data = self.data.read(num)
            self._tell += len(data) << 3
            return data
        return bytes(self.read(8) for _ in range(num))""","""        if self._bits_left == 0:
            data = self.data.read(num)
            self._tell += len(data) << 3
            return data
        if num > 4 and self._bits != -1:
            # Bulk path: pull all the bytes in with a single shift.
            raw = self.data.read(num)
            whole = self._bits | int.from_bytes(raw, "little") << self._bits_left
            self._bits = whole >> (num << 3) & 0x7F
            self._tell += num << 3
            return (whole & (1 << (num << 3)) - 1).to_bytes(num, "little")
        return bytes(self.read(8) for _ in range(num))""")]
EDITS[0]=(EDITS[0][0],EDITS[0][1],EDITS[0][2].replace("& 0x7F","& 0x3F"))
DEMO='''
import io
from dustmaker.bitio import BitIOReader, BitIOWriter
for left in range(8):
    for v in range(256):
        b = io.BytesIO(); w = BitIOWriter(b, noclose=True)
        w.write(left, 0); w.write_bytes(bytes([v]) * 6); w.write(8, v); w.close()
        r = BitIOReader(io.BytesIO(b.getvalue()))
        r.read(left)
        assert r.read_bytes(6) == bytes([v]) * 6
        assert r.read(8) == v, (left, v)
'''
