ID='c04_unaligned_bytes'
PROPERTY='C04'
NEEDS='a seek inside a byte without a following write, then a flush'
BREAKS='the rest of the byte is handled as if it had been written'
EDITS=[('dustmaker/bitio.py', '        if self._bits_left != 0 and self._bits != -1:\n            self.data.write(bytes((self._bits,)))\n            super().align()', '        if self._bits_left != 0:\n            if self._bits != -1:\n                self.data.write(bytes((self._bits,)))\n            super().align()')]
DEMO='\nimport io\nfrom dustmaker.bitio import BitIOWriter\nb=io.BytesIO()\nw=BitIOWriter(b,noclose=True)\nw.write_bytes(b"abcd")\nw.bit_seek(11, allow_unaligned=True)\nw.flush()\nw.write(5,3)\nw.close()\nassert b.getvalue()[0:1]==b"a" and b.getvalue()[1]==3<<3 and b.getvalue()[2:]==b"cd", b.getvalue()\n'
