ID='c26_taken_noted'
PROPERTY='C26'
NEEDS='an add refused because the id is taken, with a large id'
BREAKS='explicit entity ids are not noted: a later automatic id can be in use by both an entity and a prop'
EDITS=[('dustmaker/level.py', '        if id_num is None:\n            id_num = self._gen_id()\n        else:\n            self._note_id(id_num)\n\n        if id_num in self.entities:\n            raise LevelException("level already has entity with ID")\n', '        if id_num is None:\n            id_num = self._gen_id()\n            while id_num in self.entities:\n                id_num += 1\n        elif id_num in self.entities:\n            raise LevelException("level already has entity with ID")\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.prop import Prop\nfrom dustmaker.entity import Apple\nl=Level()\nl.add_entity(0.0,0.0,Apple(),100)\nl.add_entity(0.0,0.0,Apple(),101)\na=l.add_entity(0.0,0.0,Apple())\nb=l.add_entity(0.0,0.0,Apple())\nc=l.add_prop(1,0.0,0.0,Prop(0,0,False,False,1.0,0,0,0,0))\nassert len({a,b,c,100,101})==5,(a,b,c)\n'
