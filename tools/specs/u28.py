ID='c28_edge_order'
PROPERTY='C28'
NEEDS='two tiles whose edge data are permuted'
BREAKS='tiles with the same edge data on other sides compare equal'
EDITS=[('dustmaker/tile.py', '        return self._vals() == oth._vals()\n', '        mine, theirs = self._vals(), oth._vals()\n        if mine[:2] + mine[3:] != theirs[:2] + theirs[3:]:\n            return False\n        return all(edge in oth.edge_data for edge in self.edge_data)\n')]
DEMO='\nfrom dustmaker.tile import *\na,b=Tile(),Tile()\na.edge_data[0].solid=True; b.edge_data[1].solid=True\nassert a!=b\n'
