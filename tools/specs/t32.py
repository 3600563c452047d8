ID="c32_flip_before_turn"; PROPERTY="C32"
NEEDS="the transform utility with a quarter turn and a vertical flip at once"
BREAKS="the vertical flip is applied before the rotation instead of after it"
EDITS=[("dustmaker/cmd/transform.py",'''            mat = TxMatrix.VFLIP * mat
''','''            mat = mat * TxMatrix.VFLIP
''')]
DEMO='''
import os, shutil, subprocess, tempfile
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.entity import Entity
d = tempfile.mkdtemp()
try:
    lev = Level(); lev.add_entity(100.0, 30.0, Entity(), id_num=200)
    open(d + "/a", "wb").write(write_level(lev))
    subprocess.run([sys.executable, "-B", "-m", "dustmaker.cmd.transform", d + "/a", d + "/b", "--rotate", "1", "--vflip"], check=True)
    got = read_level(open(d + "/b", "rb").read())
    lev.rotate(1); lev.flip_vertical()
    assert got.entities[200][:2] == lev.entities[200][:2], (got.entities, lev.entities)
finally:
    shutil.rmtree(d)
'''
