ID='c09_prefix_header'
PROPERTY='C09'
NEEDS='a file whose header differs from the wanted one in its last byte only'
BREAKS='headers are only compared up to their last byte'
EDITS=[('dustmaker/dfreader.py', '        if data != self.read_bytes(len(data)):\n', '        if self.read_bytes(len(data))[:5] != data[:5]:\n')]
DEMO='\nimport io\nfrom dustmaker.variable import *\nfrom dustmaker.dfreader import DFReader\nfrom dustmaker.dfwriter import DFWriter\nfrom dustmaker.exceptions import LevelParseException\nb=io.BytesIO(); w=DFWriter(b,noclose=True); w.write_var_file(b"DF_STA",{}); w.close()\ntry:\n    DFReader(io.BytesIO(b.getvalue())).read_var_file(b"DF_STB")\nexcept LevelParseException:\n    pass\nelse:\n    raise SystemExit("accepted")\n'
