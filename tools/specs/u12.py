ID='c12_type_by_prefix'
PROPERTY='C12'
NEEDS="an entity whose type name is a registered name with '{' appended"
BREAKS='the type name is looked up without trailing braces, so an unregistered type becomes another one'
EDITS=[('dustmaker/entity.py', '        subcls = cls._known_types.get(etype)\n', '        subcls = cls._known_types.get(etype.rstrip("{"))\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.entity import *\nfrom dustmaker.dfwriter import write_level\nfrom dustmaker.dfreader import read_level\nl=Level(); e=Entity(); e.etype="enemy_wolf{"\nl.add_entity(1.0,1.0,e)\n(_,_,g),=read_level(write_level(l)).entities.values()\nassert g.etype=="enemy_wolf{" and type(g) is Entity\n'
