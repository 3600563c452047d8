ID='c32_icon_flag'
PROPERTY='C32'
NEEDS='updating the variables of a level that has a thumbnail'
BREAKS='the thumbnail is dropped when the new variables say none was taken'
EDITS=[('dustmaker/cmd/variables.py', '                level.variables = variables.value\n', '                level.variables = variables.value\n                if "icon_taken" not in level.variables:\n                    level.sshot = b""\n')]
DEMO='\nimport io, json, os, subprocess, sys, tempfile\nfrom dustmaker import DFReader\nfrom dustmaker.dfwriter import write_level\nfrom dustmaker.level import Level\nwith tempfile.TemporaryDirectory() as d:\n    l=Level(); l.sshot=b"png"\n    p=os.path.join(d,"l"); open(p,"wb").write(write_level(l))\n    j=os.path.join(d,"j"); json.dump({"vars":{"a":1},"schema":{"a":"int"}},open(j,"w"))\n    subprocess.run([sys.executable,"-B","-m","dustmaker.cmd.variables",p,j],check=True)\n    with DFReader(open(p,"rb")) as r: assert r.read_level().sshot==b"png"\n'
