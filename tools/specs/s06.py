ID="c06_negative_fraction"; PROPERTY="C06"
NEEDS="a negative number with a fractional part of at least one half"
BREAKS="negative fixed-point numbers are stored with the fraction of the magnitude rounded to the wrong side"
EDITS=[("dustmaker/dfwriter.py","""        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))
""","""        fpart = int((val - floor(val)) * (2 ** (fbits - 1)))
        if fpart >> (fbits - 2) and val < -(1 << 16):
            fpart &= ~1
""")]
DEMO='''
import io
from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter
for v in (-70000.2578125, -70000.2421875, -65537 - 1 / 128 , 3.5, -3.75):
    b = io.BytesIO(); w = DFWriter(b, noclose=True); w.write_float(32, 8, v); w.close()
    assert DFReader(io.BytesIO(b.getvalue())).read_float(32, 8) == v, v
'''
