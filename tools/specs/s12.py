ID="c12_extended_names_mix"; PROPERTY="C12"
NEEDS="a segment holding a plain entity after an entity whose name needs the extended name table"
BREAKS="entities of a segment are re-associated with extended names in the wrong order when plain and extended names alternate"
EDITS=[("dustmaker/dfreader.py","""            for etype, xpos, ypos, eargs, id_num in entities:
                if has_extended_names and etype == "entity":
                    etype = self.read_6bit_str()
""","""            if has_extended_names:
                # Resolve the names first, lowest ids are listed first.
                entities.sort(key=lambda ent: ent[-1])

            for etype, xpos, ypos, eargs, id_num in entities:
                if has_extended_names and etype == "entity":
                    etype = self.read_6bit_str()
""")]
DEMO='''
import io
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
def mk(name):
    e = Entity(); e.etype = name; return e
lev = Level()
for i, n in ((30, "z_long"), (20, "plain"), (10, "z_other")):
    lev.add_entity(5.0 * i, 7.0, mk(n), id_num=i)
got = read_level(write_level(lev))
assert {i: e[2].etype for i, e in got.entities.items()} == {30: "z_long", 20: "plain", 10: "z_other"}
'''
