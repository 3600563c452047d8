ID='c14_offsets_shifted'
PROPERTY='C14'
NEEDS='region data given as several pieces, one of them empty'
BREAKS='region pieces after an empty one are dropped'
EDITS=[('dustmaker/dfwriter.py', '            for data in region_data:\n                self.write_bytes(data)\n', '            for data in iter(iter(region_data).__next__, b""):\n                self.write_bytes(data)\n'), ('dustmaker/dfwriter.py', '        if end_index - start_index != region_offsets[-1] * 8:', '        if end_index - start_index > region_offsets[-1] * 8:')]
DEMO='\nimport io\nfrom dustmaker import DFReader, DFWriter\nfrom dustmaker.level import Level\nfrom dustmaker.tile import Tile\nfrom dustmaker.dfwriter import write_level\nfrom dustmaker.dfreader import read_level\nl=Level(); l.tiles[(19,1,1)]=Tile(); l.tiles[(19,300,1)]=Tile()\nr=DFReader(io.BytesIO(write_level(l)))\nlev,off=r.read_level_ex()\ndata=r.read_bytes(off[-1])\no=io.BytesIO()\nwith DFWriter(o,noclose=True) as w: w.write_level_ex(lev,off,[data[:off[1]],b"",data[off[1]:]])\nassert len(read_level(o.getvalue()).tiles)==2\n'
