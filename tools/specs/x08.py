ID='c14_region_chunks'
PROPERTY='C14'
NEEDS='raw region data given as several chunks, one of them empty'
BREAKS='writing stops at the first empty chunk'
EDITS=[('dustmaker/dfwriter.py', '            for data in region_data:\n                self.write_bytes(data)\n        end_index', '            for data in iter(iter(region_data).__next__, b""):\n                self.write_bytes(data)\n        end_index')]
DEMO='\nimport io\nfrom dustmaker import read_level, write_level\nfrom dustmaker.level import Level\nfrom dustmaker.tile import *\nfrom dustmaker.dfreader import DFReader\nfrom dustmaker.dfwriter import DFWriter\nl=Level(); l.tiles[(19,3,4)]=Tile(TileShape.FULL)\nr=DFReader(io.BytesIO(write_level(l)))\nlev,offs=r.read_level_ex(); data=r.read_bytes(offs[-1])\no=io.BytesIO()\nw=DFWriter(o,noclose=True)\nw.write_level_ex(lev,offs,[data[:5],b"",data[5:]])\nw.close()\nassert (19,3,4) in read_level(o.getvalue()).tiles\n'
