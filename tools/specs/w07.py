ID='c22_rotate_negative'
PROPERTY='C22'
NEEDS='rotating by a negative number of odd quarter turns'
BREAKS='negative rotations turn the wrong way'
EDITS=[('dustmaker/level.py', '        self.transform(TxMatrix.ROTATE[times % 4])\n', '        self.transform(TxMatrix.ROTATE[abs(times) % 4])\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.entity import Entity\nl=Level(); l.add_entity(5.0,9.0,Entity(),200); l.rotate(1); l.rotate(-1)\nassert tuple(round(v,6) for v in l.entities[200][:2])==(5.0,9.0)\n'
