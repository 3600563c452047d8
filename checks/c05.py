"""C05: 6-bit identifiers."""

from checks.common import finish, reader, writer

ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
BOUNDS = {
    "quick": "every string of each length 0..8, 15, 31, 62, 63 over the alphabet at alignment 0 and every string of "
    "length up to 4 at every alignment; every string with one foreign code point (any up to 0x10FFFF); lengths 64..70",
    "thorough": "every length 0..63 at every alignment; foreign code points at any position of strings up to length 5; lengths 64..140",
}


def cases(tier):
    out = []
    q = tier == "quick"
    for n in range(0, 64):
        for p in range(8):
            if n <= 4 or (p == 0 and n in (5, 6, 7, 8, 15, 31, 62, 63)) or not q:
                out.append({"k": "rt", "n": n, "p": p})
    for n in range(1, 3 if q else 6):
        for i in range(n):
            out.append({"k": "bad", "n": n, "i": i})
    out.append({"k": "long", "top": 70 if q else 140})
    out.append({"k": "dec"})
    return out


def alphabet_text(ctx, name, n):
    """Arbitrary string of length n over the alphabet."""
    text = ctx.text(name, n, 0x30, 0x7B)
    for ch in text:
        v = ord(ch)
        ctx.assume(v <= 0x39 or (v >= 0x41 and v <= 0x5A) or v == 0x5F or v >= 0x61)
    return text


def run(ctx, case):
    k = case["k"]
    if k == "rt":
        n, p = case["n"], case["p"]
        lead = ctx.u("lead", p) if p else 0
        tail = ctx.u("tail", 9)
        text = alphabet_text(ctx, "t", n)
        wr = writer()
        if p:
            wr.write(p, lead)
        wr.write_6bit_str(text)
        wr.write(9, tail)
        ctx.check(wr.bit_tell() == p + 6 * (n + 1) + 9, "encoded size")
        data = finish(wr)
        rd = reader(data)
        if p:
            ctx.check(rd.read(p) == lead, "lead")
        ctx.check(rd.read_6bit_str() == text, "string")
        ctx.check(rd.read(9) == tail, "trailer")
        # every character has its fixed six bit code
        whole = int.from_bytes(data, "little") >> p
        ctx.check(whole & 63 == n, "length field")
        for i in range(n):
            code = (whole >> (6 * (i + 1))) & 63
            ctx.check(ALPHABET[code] == text[i], "code of character %d" % i)
    elif k == "bad":
        n, i = case["n"], case["i"]
        text = alphabet_text(ctx, "t", n)
        cp = ctx.int("cp", 0, 0x10FFFF)
        ctx.assume(not (
            (cp >= 0x30 and cp <= 0x39) or (cp >= 0x41 and cp <= 0x5A) or cp == 0x5F
            or (cp >= 0x61 and cp <= 0x7B)
        ))
        ctx.assume(cp < 0xD800 or cp > 0xDFFF)
        bad = text[:i] + chr(cp) + text[i + 1:]
        failed = False
        try:
            writer().write_6bit_str(bad)
        except ValueError:
            failed = True
        ctx.check(failed, "foreign character accepted")
    elif k == "long":
        for n in range(64, case["top"] + 1):
            wr = writer()
            failed = False
            try:
                wr.write_6bit_str("a" * n)
            except ValueError:
                failed = True
            ctx.check(failed, "string of length %d accepted" % n)
            ctx.check(wr.bit_tell() == 0, "rejected string left data behind")
    else:
        # decoding: all 64 codes, injective
        code = ctx.u("code", 6)
        rd = reader((1 + (code << 6)).to_bytes(2, "little"))
        text = rd.read_6bit_str()
        ctx.check(text == ALPHABET[code], "decoded character")
        ctx.check(rd.bit_tell() == 12, "bits consumed")


OPTS = {"quick": {"chunk": 4}, "thorough": {"chunk": 4}}
