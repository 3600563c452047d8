ID="c11_id_zero"; PROPERTY="C33"
NEEDS="a prop or entity with id 0"
BREAKS="entries with id 0 are taken for removed ones and the reader loses its place"
EDITS=[("dustmaker/dfreader.py",'''                id_num = self.read(32, True)
                if id_num < 0:
                    continue

                etype''','''                id_num = self.read(32, True)
                if id_num <= 0:
                    continue

                etype''')]
DEMO='''
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
lev = Level(); lev.add_entity(5.0, 5.0, Entity(), id_num=0)
try:
    got = read_level(write_level(lev))
except Exception as e:
    raise SystemExit(repr(e))
assert list(got.entities) == [0]
'''
