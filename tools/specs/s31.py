ID="c31_update_merges"; PROPERTY="C31"
NEEDS="updating a level with a document that lacks one of the level's variables"
BREAKS="variables missing from the document survive the update"
EDITS=[("dustmaker/cmd/variables.py",'''                level.variables = variables.value
''','''                level.variables.update(variables.value)
''')]
DEMO='''
import io, json, os, subprocess, tempfile
from dustmaker.dfreader import read_level
from dustmaker.dfwriter import write_level
from dustmaker.level import Level
from dustmaker.variable import VariableInt
d = tempfile.mkdtemp()
try:
    lev = Level(); lev.variables = {"a": VariableInt(1), "b": VariableInt(2)}
    open(os.path.join(d, "l"), "wb").write(write_level(lev))
    json.dump({"schema": {"a": "int"}, "vars": {"a": 5}}, open(os.path.join(d, "j"), "w"))
    subprocess.run([sys.executable, "-B", "-m", "dustmaker.cmd.variables", d + "/l", d + "/j"], check=True)
    assert read_level(open(os.path.join(d, "l"), "rb").read()).variables == {"a": VariableInt(5)}
finally:
    import shutil; shutil.rmtree(d)
'''
