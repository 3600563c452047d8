ID='c25_half_turn'
PROPERTY='C25'
NEEDS='two edges meeting at a sharp outward corner'
BREAKS='turns of more than a right angle are clamped'
EDITS=[('dustmaker/level.py', '                    if delta_angle > math.pi:\n                        delta_angle -= 2 * math.pi\n', '                    if delta_angle > math.pi:\n                        delta_angle -= 2 * math.pi\n                    delta_angle = min(max(delta_angle, -math.pi / 3), math.pi / 3)\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.tile import *\nl=Level()\nfor x,s in ((0,TileShape.HALF_A),(1,TileShape.HALF_B),(2,TileShape.HALF_A),(3,TileShape.HALF_B),(4,TileShape.HALF_C),(5,TileShape.HALF_D)):\n    l.tiles[(19,x,0)]=Tile(s)\nfor t in l.tiles.values():\n    for e in t.edge_data: e.visible=e.solid=True\nl.calculate_edge_caps()\nvals={abs(a) for t in l.tiles.values() for e in t.edge_data for a in e.angles}\nassert 45 in vals, vals\n'
