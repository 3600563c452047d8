ID="c35_duplicate_scores"; PROPERTY="C35"
NEEDS="a save with two scores of the same level"
BREAKS="only one of several scores of a level is kept although all of them are counted"
EDITS=[("dustmaker/cmd/save_convert.py",'''    new_scores.sort(key=lambda score: score.value["file_name"].value)
''','''    by_name = {score.value["file_name"].value: score for score in new_scores}
    new_scores = [by_name[name] for name in sorted(by_name)]
''')]
DEMO='''
from dustmaker.cmd.save_convert import migrate_stats
from dustmaker.variable import *
def score(t):
    return {"file_name": VariableString(b"downhill"), "combo": VariableInt(3), "time": VariableFloat(t), "thorough": VariableFloat(1.0), "best_time": VariableFloat(t), "overall": VariableInt(2)}
got = migrate_stats({"score": VariableArray(VariableStruct, [VariableStruct(score(1.0)), VariableStruct(score(2.0))])})
assert len(got["k_score"]) == 2
'''
