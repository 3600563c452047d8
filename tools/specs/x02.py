ID='c21_slant_flip_sprite'
PROPERTY='C21'
NEEDS='a mirrored slant (BIG_5 to SMALL_8) with a palette, upscaled'
BREAKS='the palette of mirrored slants is lost'
EDITS=[('dustmaker/tile.py', '                tile.transform(imat)  # type: ignore\n                tx, ty = imat.sample(dx, dy)\n', '                tile.transform(imat)  # type: ignore\n                if hflip:\n                    tile.set_sprite_tuple((*self.get_sprite_tuple()[:2], 0))\n                tx, ty = imat.sample(dx, dy)\n')]
DEMO='\nfrom dustmaker.tile import *\nfor sh in TileShape:\n    t=Tile(sh); t.set_sprite_tuple((TileSpriteSet.CITY,4,3))\n    for dx,dy,n in t.upscale(2):\n        assert n.get_sprite_tuple()==(TileSpriteSet.CITY,4,3),(sh,dx,dy)\n'
