ID='c28_hash_text'
PROPERTY='C28'
NEEDS='two variables holding zeros of different sign'
BREAKS='the hash follows the printed value, so equal variables can hash differently'
EDITS=[('dustmaker/variable.py', '        return hash((self._vtype, self.value))\n', '        return hash((self._vtype, repr(self.value)))\n')]
DEMO='\nfrom dustmaker.variable import *\na,b=VariableVec2((0.0,1.0)),VariableVec2((-0.0,1.0))\nassert a==b and hash(a)==hash(b)\n'
