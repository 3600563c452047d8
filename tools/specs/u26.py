ID='c26_backdrop_counter'
PROPERTY='C26'
NEEDS='a backdrop prop with a high id, then recomputing the maximum without reset'
BREAKS='recomputing the maximum without reset ignores the backdrop'
EDITS=[('dustmaker/level.py', '        if self.backdrop is not None:\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n        self._next_id', '        if self.backdrop is not None and reset:\n            mx_id = max(mx_id, self.backdrop.calculate_max_id())\n        self._next_id')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.prop import Prop\nl=Level()\np=Prop(0,0,False,False,1.0,1,1,1,0)\nl.backdrop.props[100]=(3,1.0,1.0,p)\nl.calculate_max_id(reset=False)\ni=l.backdrop.add_prop(3,1.0,2.0,p)\nassert i!=100 and len(l.backdrop.props)==2\n'
