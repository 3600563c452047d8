ID='c05_upper_folded'
PROPERTY='C05'
NEEDS='an identifier that holds the non-ASCII letter that upper cases to an ASCII one'
BREAKS='characters are compared after folding their case, so foreign letters are stored as ASCII ones'
EDITS=[('dustmaker/dfwriter.py', '            elif ord("a") <= v <= ord("z"):\n                self.write(6, v - ord("a") + 37)\n', '            elif "A" <= ch.upper() <= "Z":\n                self.write(6, ord(ch.upper()) - ord("A") + 37)\n')]
DEMO='\nimport io\nfrom dustmaker.dfwriter import DFWriter\nfor t in ("\\u0131","a\\u017f"):\n    w=DFWriter(io.BytesIO())\n    try:\n        w.write_6bit_str(t)\n    except ValueError:\n        continue\n    raise SystemExit("stored %r"%t)\n'
