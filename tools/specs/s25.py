ID="c25_filth_spike_join"; PROPERTY="C25"
NEEDS="two joined edges with the same filth type, one of them with spikes"
BREAKS="a joint between filth and spikes of the same type is treated as continuous"
EDITS=[("dustmaker/level.py",'''                        if (edge_data.filth_spike, edge_data.filth_sprite_set) == (
                            nedge_data.filth_spike,
                            nedge_data.filth_sprite_set,
                        ):
''','''                        if (
                            edge_data.filth_sprite_set == nedge_data.filth_sprite_set
                            and edge_data.filth_spike <= nedge_data.filth_spike
                        ):
''')]
DEMO='''
from dustmaker.level import Level
from dustmaker.tile import *
lev = Level()
for x in range(2):
    t = Tile(); lev.tiles[(19, x, 0)] = t
    e = t.edge_data[TileSide.TOP]
    e.solid = e.visible = True; e.filth_sprite_set = TileSpriteSet.FOREST; e.filth_spike = x == 1
lev.calculate_edge_caps()
assert lev.tiles[(19, 0, 0)].edge_data[TileSide.TOP].filth_caps == (True, True)
assert lev.tiles[(19, 1, 0)].edge_data[TileSide.TOP].filth_caps == (True, True)
'''
