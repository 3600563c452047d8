ID='c35_red_clamped'
PROPERTY='C35'
NEEDS='a save with a score whose overall rank is negative'
BREAKS='such scores are dropped'
EDITS=[('dustmaker/cmd/save_convert.py', '        if key == -1:\n            continue\n', '        if key == -1 or score["overall"].value < 0:\n            continue\n')]
DEMO='\nfrom dustmaker.cmd.save_convert import migrate_stats\nfrom dustmaker.variable import *\ns={"file_name":VariableString(b"downhill"),"combo":VariableInt(0),"time":VariableFloat(1.0),"thorough":VariableFloat(1.0),"best_time":VariableFloat(1.0),"overall":VariableInt(-1)}\nn=migrate_stats({"score":VariableArray(VariableStruct,[VariableStruct(s)])})\nassert len(n["k_score"])==1\n'
