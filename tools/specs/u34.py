ID='c34_region_short'
PROPERTY='C34'
NEEDS="a level cut off inside a region's compressed data"
BREAKS='truncated regions are read as far as they go'
EDITS=[('dustmaker/dfreader.py', '            io.BytesIO(zlib.decompress(self.read_bytes(region_len - 17)))\n', '            io.BytesIO(zlib.decompressobj().decompress(self.read_bytes(region_len - 17)))\n')]
DEMO='\nimport io\nfrom dustmaker.level import Level\nfrom dustmaker.tile import Tile\nfrom dustmaker.dfwriter import write_level\nfrom dustmaker.dfreader import read_level\nl=Level()\nfor i in range(16): l.tiles[(19,i*7%16,i*5%16)]=Tile()\ndata=write_level(l)\nfor cut in range(1, 40):\n    try:\n        read_level(data[:-cut])\n    except Exception:\n        continue\n    raise SystemExit("accepted %d" % cut)\n'
