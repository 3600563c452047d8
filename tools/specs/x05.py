ID='c03_align_after_seek'
PROPERTY='C03'
NEEDS='a seek into the middle of a byte directly followed by align'
BREAKS='aligning right after such a seek leaves the stream one byte behind'
EDITS=[('dustmaker/bitio.py', '        if self._bits == -1:\n            # We did a seek mid-byte and have not consumed the lead byte.\n            self.data.seek(self._tell // 8)\n        self._bits = 0\n', '        self._bits = 0\n')]
DEMO='\nimport io\nfrom dustmaker.bitio import BitIOReader\nr=BitIOReader(io.BytesIO(bytes([1,2,3,4])))\nr.bit_seek(11); r.align()\nassert r.bit_tell()==16 and r.read(8)==3\n'
