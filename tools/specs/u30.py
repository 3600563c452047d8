ID='c30_speed_default'
PROPERTY='C30'
NEEDS='storing an explicit zero in a float property'
BREAKS="assigning the default's falsy value removes the variable"
EDITS=[('dustmaker/entity.py', '        self.variables[prop_name] = val if objtype else prop_type(val)\n', '        if not objtype and val == 0.0 and isinstance(val, float):\n            self.variables.pop(prop_name, None)\n            return\n        self.variables[prop_name] = val if objtype else prop_type(val)\n')]
DEMO='\nfrom dustmaker.entity import FogTrigger\nf=FogTrigger(); f.star_top=0.0\nassert f.star_top==0.0\n'
