ID='c02_wide_negative'
PROPERTY='C02'
NEEDS='a negative value in a field wider than 64 bits'
BREAKS='the sign is only extended to 64 bits'
EDITS=[('dustmaker/bitio.py', '        if val < 0:\n            val += 1 << bits\n\n        if self._bits == -1:', '        if val < 0:\n            # Make the value non-negative without losing its low bits\n            val += 1 << max(bits, 1) if bits <= 64 else 1 << 64\n\n        if self._bits == -1:')]
DEMO='\nimport io\nfrom dustmaker.bitio import BitIOWriter\nb=io.BytesIO()\nwith BitIOWriter(b,noclose=True) as w:\n    w.write(3,5); w.write(72,-2)\nv=int.from_bytes(b.getvalue(),"little")>>3\nassert v & ((1<<72)-1) == (1<<72)-2, hex(v)\n'
