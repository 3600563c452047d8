ID='c35_best_time'
PROPERTY='C35'
NEEDS='a score whose best time differs from its time'
BREAKS='the best time of a score is replaced by its time when it is worse'
EDITS=[('dustmaker/cmd/save_convert.py', '                    "best_time": VariableFloat(score["best_time"].value),\n', '                    "best_time": VariableFloat(\n                        min(score["best_time"].value, score["time"].value)\n                    ),\n')]
DEMO='\nfrom dustmaker.cmd.save_convert import migrate_stats\nfrom dustmaker.variable import *\ndef sc(b):\n    return VariableStruct({"file_name":VariableString(b"downhill"),"combo":VariableInt(1),"time":VariableFloat(4.0),"thorough":VariableFloat(1.0),"best_time":VariableFloat(b),"overall":VariableInt(1)})\nfor b in (2.0,8.0):\n    r=migrate_stats({"score":VariableArray(VariableStruct,[sc(b)])})\n    assert r["k_score"][0]["best_time"].value==b if not hasattr(r["k_score"],"value") else r["k_score"].value[1][0].value["best_time"].value==b\n'
