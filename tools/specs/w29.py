ID='c18_uncompressed_size'
PROPERTY='C18'
NEEDS='looking at the recorded uncompressed size of a replay with an odd input section'
BREAKS='the recorded uncompressed size leaves out the entity block when there are no entities'
EDITS=[('dustmaker/dfwriter.py', '        self.write(32, len(sub_data))\n        self.write(32, rep.frames)\n', '        self.write(32, len(sub_data) if rep.entities else len(sub_data) - 4)\n        self.write(32, rep.frames)\n')]
DEMO='\nimport io, struct, zlib\nfrom dustmaker.replay import *\nfrom dustmaker.dfwriter import DFWriter\nb=io.BytesIO(); w=DFWriter(b,noclose=True); w.write_replay(Replay(version=4,players=[PlayerData()],level=b"x")); w.close()\nd=b.getvalue(); n=struct.unpack_from("<I",d,9)[0]\nassert n==len(zlib.decompress(d[d.index(b"x\\xda" if b"x\\xda" in d else b"x\\x9c"):])), n\n'
