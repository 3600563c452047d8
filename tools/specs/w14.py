ID='c06_low_bits'
PROPERTY='C06'
NEEDS='a number using the low bits of a 32 bit fraction'
BREAKS='fractions are rounded to nine decimal places on reading'
EDITS=[('dustmaker/dfreader.py', '        return sign * ipart + 1.0 * fpart / (1 << (fbits - 1))\n', '        return sign * ipart + round(fpart / (1 << (fbits - 1)), 9)\n')]
DEMO='\nimport io\nfrom dustmaker.dfreader import DFReader\nfrom dustmaker.dfwriter import DFWriter\nfor v in (3.5, -2.25, 1.0+2.0**-31, 7.0+5*2.0**-30):\n    b=io.BytesIO(); w=DFWriter(b,noclose=True); w.write_float(32,32,v); w.close()\n    assert DFReader(io.BytesIO(b.getvalue())).read_float(32,32)==v\n'
