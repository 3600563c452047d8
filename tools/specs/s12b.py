ID="c12_plain_entity_name"; PROPERTY="C12"
NEEDS="an entity whose type name is literally 'entity' in the same segment as one with an extended name"
BREAKS="an entity named like the placeholder takes the extended name of the entity after it"
EDITS=[("dustmaker/dfwriter.py",'''                if entity.etype.startswith("z_") or entity.etype == "entity":
''','''                if entity.etype[:2] == "z_":
''')]
DEMO='''
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
lev = Level()
for i, n in enumerate(("entity", "z_abc")):
    e = Entity(); e.etype = n
    lev.add_entity(10.0, 10.0, e, id_num=200 + i)
try:
    got = read_level(write_level(lev))
except Exception as exc:
    raise SystemExit(repr(exc))
assert {i: e[2].etype for i, e in got.entities.items()} == {200: "entity", 201: "z_abc"}
'''
