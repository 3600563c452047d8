"""Reference encoders of the Dustforce formats, written from the format
description and independent of the code under test."""

ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
NUL, BOOL, INT, UINT, FLOAT, STRING, VEC2, STRUCT, ARRAY = 0, 1, 2, 3, 4, 5, 10, 14, 15


class Bits:
    """Little endian bit accumulator."""

    def __init__(self):
        self.parts = []
        self.n = 0

    def put(self, w, v):
        if w:
            self.parts.append((self.n, w, v))
            self.n += w

    def bytes(self, data):
        for b in data:
            self.put(8, b)

    def align(self):
        self.n = (self.n + 7) // 8 * 8

    def patch(self, pos, w, v):
        self.parts.append((pos, w, v))

    def done(self):
        nb = (self.n + 7) // 8
        cells = [0] * nb
        for pos, w, v in self.parts:
            if isinstance(v, int):
                v = v % (1 << w)
            else:
                v = int(v) % (1 << w)
            k = 0
            while k < w:
                i = (pos + k) // 8
                off = (pos + k) % 8
                take = min(8 - off, w - k)
                cells[i] = cells[i] + (((v >> k) & ((1 << take) - 1)) << off)
                k += take
        return bytes(cells)


def enc_6bit(b, text):
    b.put(6, len(text))
    for ch in text:
        b.put(6, code6(ch))


def code6(ch):
    v = ord(ch)
    return (
        v - 48 if v <= 57
        else v - 65 + 10 if v <= 90
        else 36 if v == 95
        else v - 97 + 37 if v <= 122
        else 63
    )


def enc_fixed(b, ib, fb, num):
    """num is the value in units of 2**-(fb-1)."""
    one = 1 << (fb - 1)
    whole = num // one
    frac = num % one
    b.put(1, 1 if num < 0 else 0)
    b.put(ib - 1, 0 - whole if num < 0 else whole)
    b.put(fb, frac)


# Reference values of variables: (type code, payload)
#   BOOL/INT/UINT value; FLOAT numerator over 2**31; STRING bytes;
#   VEC2 (n0, n1); ARRAY (element type code, [refs]); STRUCT [(key, ref)]


def enc_var(b, ref):
    t, v = ref
    if t == BOOL:
        b.put(1, v)
    elif t in (INT, UINT):
        b.put(32, v)
    elif t == FLOAT:
        enc_fixed(b, 32, 32, v)
    elif t == VEC2:
        enc_fixed(b, 32, 32, v[0])
        enc_fixed(b, 32, 32, v[1])
    elif t == STRING:
        b.put(16, len(v))
        b.bytes(v)
    elif t == ARRAY:
        et, elems = v
        b.put(4, et)
        if et == STRING:
            parts = []
            for e in elems:
                parts.extend(chunks(e[1]))
            b.put(16, len(parts))
            for p in parts:
                enc_var(b, (STRING, p))
        else:
            b.put(16, len(elems))
            for e in elems:
                enc_var(b, e)
    elif t == STRUCT:
        for key, e in v:
            if e[0] == STRING:
                for p in chunks(e[1]):
                    b.put(4, STRING)
                    enc_6bit(b, key)
                    enc_var(b, (STRING, p))
            else:
                b.put(4, e[0])
                enc_6bit(b, key)
                enc_var(b, e)
        b.put(4, NUL)


def chunks(data):
    out = []
    i = 0
    while True:
        out.append(data[i:i + 65535])
        if len(out[-1]) < 65535:
            return out
        i += 65535
