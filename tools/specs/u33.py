ID='c33_prop_old_position'
PROPERTY='C33'
NEEDS='an old segment with a prop at a fractional position'
BREAKS='fractional prop positions of old segments are rounded'
EDITS=[('dustmaker/dfreader.py', '                    ypos = self.read_float(28, 4)\n', '                    ypos = self.read_float(28, 4) // 0.25 * 0.25\n')]
DEMO='\nimport io\nfrom dustmaker import DFReader, DFWriter\nfrom dustmaker.level import Level\nb=io.BytesIO()\nw=DFWriter(b,noclose=True)\nw.write(32,0);w.write(16,6);w.write(8,0);w.write(8,0);w.write(8,16)\nw.write(32,0)\nfor _ in range(4): w.write(16,0)\nw.write(32,8)\nw.write(16,1);w.write(32,7);w.write(8,1);w.write(8,2)\nw.write_float(28,4,5.125);w.write_float(28,4,6.125)\nw.write(16,0);w.write(1,0);w.write(1,0);w.write(8,1);w.write(12,1);w.write(12,1);w.write(8,1)\nw.align()\nn=w.bit_tell()//8\nw.bit_seek(0);w.write(32,n);w.bit_seek(n*8);w.close()\nb.seek(0)\nl=Level()\nDFReader(b).read_segment(l,0,0)\nassert l.props[7][1:3]==(5.125,6.125), l.props\n'
