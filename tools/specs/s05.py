ID="c05_unicode_digits"; PROPERTY="C05"
NEEDS="a name containing a non-ASCII decimal digit such as U+0661"
BREAKS="strings with characters outside the alphabet are stored as other characters instead of being refused"
EDITS=[("dustmaker/dfwriter.py",'''            if ord("0") <= v <= ord("9"):
                self.write(6, v - ord("0"))''','''            if ch.isdigit():
                self.write(6, v - ord("0"))''')]
DEMO='''
import io
from dustmaker.dfwriter import DFWriter
for bad in ("\\u0661", "a\\u00b2", "x\\uff15"):
    try:
        with DFWriter(io.BytesIO()) as w:
            w.write_6bit_str(bad)
    except ValueError:
        continue
    raise SystemExit("accepted %r" % bad)
'''
