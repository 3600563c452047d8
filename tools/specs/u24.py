ID='c24_missing_kept'
PROPERTY='C24'
NEEDS='a dust block with a slanted shape next to another dust block'
BREAKS='edges next to a non-flush side of a dust block are treated as shared'
EDITS=[('dustmaker/level.py', '                if not nedge_exists or not nedge_flush:\n', '                if not nedge_exists or not (nedge_flush or ntile.is_dustblock()):\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.tile import *\nl=Level()\na=Tile(TileShape.FULL); b=Tile(TileShape.BIG_1); b.set_dustblock()\nl.tiles[(19,0,0)]=a; l.tiles[(19,0,1)]=b\nl.calculate_edge_visibility()\nassert a.edge_data[1].solid\n'
