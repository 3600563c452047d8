ID='c19_scale_only'
PROPERTY='C19'
NEEDS='multiplying a matrix with an offset by a scalar from the left'
BREAKS='scalar * matrix leaves the translation alone'
EDITS=[('dustmaker/transform.py', '        return self * lhs\n', '        return self * TxMatrix(((lhs, 0, 0), (0, lhs, 0), (0, 0, 1)))\n')]
DEMO='\nfrom dustmaker.transform import TxMatrix\nm=TxMatrix(((1,0,10),(0,1,20),(0,0,1)))\nassert (3*m).sample(1,1)==(33,63)\n'
