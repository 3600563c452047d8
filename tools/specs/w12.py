ID='c35_unsorted_ties'
PROPERTY='C35'
NEEDS='a save with scores whose names differ in length and share a prefix'
BREAKS='scores whose name extends another one are sorted before it'
EDITS=[('dustmaker/cmd/save_convert.py', '    new_scores.sort(key=lambda score: score.value["file_name"].value)\n', '    new_scores.sort(key=lambda score: score.value["file_name"].value + b"z")\n')]
DEMO='\nfrom dustmaker.cmd.save_convert import migrate_stats\nfrom dustmaker.variable import *\ndef sc(n): return VariableStruct({"file_name":VariableString(n),"combo":VariableInt(1),"time":VariableFloat(1.0),"thorough":VariableFloat(1.0),"best_time":VariableFloat(1.0),"overall":VariableInt(1)})\nr=migrate_stats({"score":VariableArray(VariableStruct,[sc(b"tunnels"),sc(b"tunnel")])})\nn=[e["file_name"].value for e in r["k_score"]]\nassert n==sorted(n), n\n'
