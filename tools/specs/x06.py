ID='c32_shift_whole'
PROPERTY='C32'
NEEDS='a shift by a fraction of a pixel'
BREAKS='the shift is rounded to whole pixels before it is applied'
EDITS=[('dustmaker/cmd/transform.py', '        level.translate(args.translate_x, args.translate_y)\n', '        level.translate(round(args.translate_x), round(args.translate_y))\n')]
DEMO='\nimport argparse, os, tempfile\nfrom dustmaker import read_level, write_level\nfrom dustmaker.level import Level\nfrom dustmaker.entity import Apple\nfrom dustmaker.cmd.transform import Transform\nwith tempfile.TemporaryDirectory() as d:\n    l=Level(); l.add_entity(10.0,20.0,Apple(),200)\n    a,b=os.path.join(d,"a"),os.path.join(d,"b")\n    open(a,"wb").write(write_level(l))\n    p=argparse.ArgumentParser(); u=Transform(); u.setup_parser(p)\n    u.main(p.parse_args([a,b,"--translate-x","0.25"]))\n    r=read_level(open(b,"rb").read())\n    assert r.entities[200][0]==10.25, r.entities[200]\n'
