ID='c27_first_node_only'
PROPERTY='C27'
NEEDS='a camera node connected to more than one other node, remapped so that a new id equals the old id of another node'
BREAKS='references of camera nodes are remapped twice when new ids overlap old ones'
EDITS=[('dustmaker/entity.py', '        nds = self.nodes\n        for i, nd_id in enumerate(nds):\n            nds[i] = id_map.get(nd_id, 0)\n', '        nds = self.nodes\n        for old_id in list(nds):\n            nds[nds.index(old_id)] = id_map.get(old_id, 0)\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.entity import CameraNode\nl=Level()\na,b,c=CameraNode(),CameraNode(),CameraNode()\nl.add_entity(0.0,0.0,a,101); l.add_entity(0.0,0.0,b,100); l.add_entity(0.0,0.0,c,102)\nfor v in (101,100): c.nodes.append(v)\nl.remap_ids(100)\nids={id(e):k for k,(_,_,e) in l.entities.items()}\nassert list(c.nodes)==[ids[id(a)],ids[id(b)]], (list(c.nodes),ids)\n'
