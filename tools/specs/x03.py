ID='c19_scale_column'
PROPERTY='C19'
NEEDS='a matrix that stretches the axes differently'
BREAKS='scale is taken from the first column only'
EDITS=[('dustmaker/transform.py', '        return math.sqrt(abs(self.determinant))\n', '        return math.hypot(self[0][0], self[1][0])\n')]
DEMO='\nfrom dustmaker.transform import TxMatrix\nm=TxMatrix(((4,0,0),(0,9,0),(0,0,1)))\nassert abs(m.scale-6)<1e-9, m.scale\n'
