ID='c34_metadata_id'
PROPERTY='C34'
NEEDS='a level file whose metadata block has a wrong identifier'
BREAKS='the identifier of the metadata block is not looked at'
EDITS=[('dustmaker/dfreader.py', '        self.read_expect(b"DF_MTD")\n', '        self.skip(48)\n')]
DEMO='\nfrom dustmaker.level import Level\nfrom dustmaker.dfwriter import write_level\nfrom dustmaker.dfreader import read_level\nfrom dustmaker.exceptions import LevelParseException\nd=write_level(Level())\ntry:\n    read_level(d.replace(b"DF_MTD",b"DF_MTX"))\nexcept LevelParseException:\n    pass\nelse:\n    raise SystemExit("accepted")\n'
