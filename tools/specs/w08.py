ID='c16_unlisted_enemy'
PROPERTY='C16'
NEEDS='an enemy class registered by the user'
BREAKS='enemies of classes defined outside the library carry no filth'
EDITS=[('dustmaker/dfwriter.py', '                enemy_filth += getattr(entity, "FILTH", 0)\n', '                enemy_filth += getattr(\n                    type(entity)._known_types.get(entity.etype), "FILTH", 0\n                )\n')]
DEMO='\nimport zlib, struct\nfrom dustmaker.level import Level\nfrom dustmaker.entity import Enemy\nfrom dustmaker.dfwriter import write_level\nclass Mine(Enemy):\n    FILTH = 7\nl=Level(); e=Mine(); e.etype="my_enemy"; l.add_entity(1.0,1.0,e)\nd=write_level(l); i=d.index(b"x\\x9c"); seg=zlib.decompress(d[i:])\nassert struct.unpack_from("<H",seg,15)[0]==7, seg[:25]\n'
