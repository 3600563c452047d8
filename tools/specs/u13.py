ID='c13_metadata_backdrop'
PROPERTY='C13'
NEEDS='a level without any regions, followed by another level in the same stream'
BREAKS='the data of a level without regions is placed one directory entry too far on, so its extent is wrong'
EDITS=[('dustmaker/dfwriter.py', '        region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7\n', '        region_data_index = (region_dir_index + 32 * (len(rmap.region_map) or 1) + 7) & ~0x7\n')]
DEMO='\nimport io\nfrom dustmaker import DFReader, DFWriter\nfrom dustmaker.level import Level\nb=io.BytesIO()\nl=Level()\nwith DFWriter(b,noclose=True) as w:\n    w.write_level(l); w.write_level(l)\nb.seek(0)\nr=DFReader(b)\nr.read_level(); r.read_level()\n'
