ID='c23_origin_node'
PROPERTY='C23'
NEEDS='a controller way point stored exactly at the origin in a level that is shifted'
BREAKS='way points at the origin do not move along'
EDITS=[('dustmaker/entity.py', '            nodes[i] = mat.sample(*pos)\n', '            nodes[i] = mat.sample(*pos, with_offset=any(pos))\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.entity import AIController\nl=Level(); a=AIController(); a.nodes.append((0.0,0.0)); a.nodes.append((3.0,0.0)); l.add_entity(0.0,0.0,a)\nl.translate(10,20)\nassert list(a.nodes)==[(10.0,20.0),(13.0,20.0)], list(a.nodes)\n'
