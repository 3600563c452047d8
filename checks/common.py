"""Shared harness helpers (run symbolically and concretely)."""

import io

from dustmaker.dfreader import DFReader
from dustmaker.dfwriter import DFWriter


def writer():
    return DFWriter(io.BytesIO())


def finish(w):
    """Complete stream content of a writer over a BytesIO."""
    buf = w.data
    w.release()
    w.close()
    return buf.getvalue()


def reader(data):
    return DFReader(io.BytesIO(data))


def bits_of(data):
    """Reference bit list of a byte string: LSB of the first byte first."""
    out = []
    for b in data:
        for i in range(8):
            out.append((b >> i) & 1)
    return out


def raises(fn, *excs):
    """Name of the exception class fn() raises among excs, else None."""
    try:
        fn()
    except excs as exc:
        return type(exc).__name__
    return None


def long_bytes(ctx, name, n, sym=24):
    """n bytes; all arbitrary up to `sym`, else arbitrary at both ends and around the middle, fixed elsewhere."""
    if n <= sym:
        return ctx.bytes(name, n)
    k = sym // 3
    fill = bytes((i * 37 + 11) % 256 for i in range(n - 3 * k))
    h = len(fill) // 2
    return ctx.bytes(name + ".a", k) + fill[:h] + ctx.bytes(name + ".b", k) + fill[h:] + ctx.bytes(name + ".c", k)
