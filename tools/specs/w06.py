ID='c33_first_tile_wins'
PROPERTY='C33'
NEEDS='a file that repeats a tile in the same layer and place'
BREAKS='of repeated tiles the first one is kept'
EDITS=[('dustmaker/dfreader.py', '                    level.tiles[(layer, xoffset + txpos, yoffset + typos)] = Tile(\n                        TileShape(shape & 0x1F),\n                        tile_flags=tile_flags,\n                        _tile_data=data,\n                    )\n', '                    level.tiles.setdefault(\n                        (layer, xoffset + txpos, yoffset + typos),\n                        Tile(\n                            TileShape(shape & 0x1F),\n                            tile_flags=tile_flags,\n                            _tile_data=data,\n                        ),\n                    )\n')]
DEMO='\nimport io\nfrom dustmaker.level import Level\nfrom dustmaker.dfreader import DFReader\nfrom dustmaker.bitio import BitIOWriter\nb=io.BytesIO(); w=BitIOWriter(b,noclose=True)\nw.write(32,0); w.write(16,4); w.write(8,0); w.write(8,0); w.write(8,16); w.write(32,1)\nw.write(8,1); w.write(8,3); w.write(10,2)\nfor s in (1,2):\n    w.write(5,0); w.write(5,0); w.write(5,s); w.write(3,4); w.write_bytes(bytes(12))\nw.close()\nl=Level(); DFReader(io.BytesIO(b.getvalue())).read_segment(l,0,0)\nassert l.tiles[(3,0,0)].shape==2\n'
