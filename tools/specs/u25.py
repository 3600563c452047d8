ID='c25_filth_on_joiner'
PROPERTY='C25'
NEEDS='an edge without filth whose joining edge has filth'
BREAKS='edges without filth get filth caps next to dirty ones'
EDITS=[('dustmaker/level.py', '                    if edge_data.filth_sprite_set:\n                        # pylint', '                    if edge_data.filth_sprite_set or nedge_data.filth_sprite_set:\n                        # pylint')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.tile import *\nl=Level()\na=Tile(); b=Tile()\nfor t in (a,b):\n    for e in t.edge_data: e.solid=e.visible=True\nb.edge_data[0].filth_sprite_set=TileSpriteSet.FOREST\nl.tiles[(19,0,0)]=a; l.tiles[(19,1,0)]=b\nl.calculate_edge_caps()\nassert a.edge_data[0].filth_caps==(False,False)\n'
