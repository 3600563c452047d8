ID='c24_callback_place'
PROPERTY='C24'
NEEDS='a visibility callback that looks at the coordinates it is given'
BREAKS="the callback gets the neighbour's coordinates"
EDITS=[('dustmaker/level.py', '                    edat.visible = visible_callback(x, y, side, tile, ntile)\n', '                    edat.visible = visible_callback(\n                        x + ndir[0], y + ndir[1], side, tile, ntile\n                    )\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.tile import *\nl=Level()\nfor x in (0,1):\n    t=Tile(TileShape.FULL); t.sprite_tile=x+1; l.tiles[(19,x,0)]=t\nseen=[]\nl.calculate_edge_visibility(visible_callback=lambda x,y,s,a,b: seen.append((x,y,a is l.tiles[(19,x,y)])) or False)\nassert all(s[2] for s in seen) and len(seen)==2, seen\n'
