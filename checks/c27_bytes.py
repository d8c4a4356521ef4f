"""C27: bytes, enum and fixed functions against independent references."""
from pbt import Violation
from runner import Sub
from engines import Err, check_call, libcall, norm
from libfn import V, fnsub

RULE = ("one generated call per case; byte strings of random, ASCII, UTF-8/16-encoded and truncated content, both as input data and as computed "
        "values; strings over ASCII, Latin-1, BMP and astral characters; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["UTF-16 encoding without explicit endianness writes a byte-order mark and either byte order is accepted",
               "base64 text with more padding than needed is left unspecified"]

S, I, B, Y = "string", "int", "boolean", "bytes"
COMPUTED = ("via", Y, {"bytes.subseq": ["$", 0, 2147483647]})
ALPH = ["abcXYZ 09", u"ab\u00e9\u00ff", u"a\u03b1\u65e5", u"a\U0001F600\u20ac"]


def txt(d):
    return d.str(d.choice(ALPH), 0, 5)


def by(d, hi=7):
    k = d.below(4)
    if k == 0:
        return bytes(d.choice(b"abcXYZ09 ") for _ in range(d.below(hi)))
    if k == 1:
        return bytes(d.below(256) for _ in range(d.below(hi)))
    s = txt(d)
    b = enc(s, d.choice(["utf8", "be", "le", "latin1"]))
    if k == 3 and b:
        i = d.below(len(b))
        b = b[:i] + b[i + 1:]
    return b


# ---- independent codecs

def enc(s, codec):
    out = []
    for c in s:
        n = ord(c)
        if codec == "ascii":
            if n > 127:
                return None
            out.append(n)
        elif codec == "latin1":
            if n > 255:
                n = 63
            out.append(n)
        elif codec == "utf8":
            if n < 0x80:
                out.append(n)
            elif n < 0x800:
                out += [0xc0 | n >> 6, 0x80 | n & 63]
            elif n < 0x10000:
                out += [0xe0 | n >> 12, 0x80 | n >> 6 & 63, 0x80 | n & 63]
            else:
                out += [0xf0 | n >> 18, 0x80 | n >> 12 & 63, 0x80 | n >> 6 & 63, 0x80 | n & 63]
        else:
            us = [n] if n < 0x10000 else [0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n - 0x10000 & 0x3ff)]
            for u in us:
                out += [u >> 8, u & 255] if codec == "be" else [u & 255, u >> 8]
    return bytes(out)


def dec(b, codec):
    """-> str or None when invalid"""
    if codec == "ascii":
        return None if any(x > 127 for x in b) else "".join(chr(x) for x in b)
    if codec == "latin1":
        return "".join(chr(x) for x in b)
    if codec == "utf8":
        out, i = "", 0
        while i < len(b):
            x = b[i]
            if x < 0x80:
                n, k, lo = x, 0, 0
            elif 0xc2 <= x < 0xe0:
                n, k, lo = x & 31, 1, 0x80
            elif 0xe0 <= x < 0xf0:
                n, k, lo = x & 15, 2, 0x800
            elif 0xf0 <= x < 0xf5:
                n, k, lo = x & 7, 3, 0x10000
            else:
                return None
            if i + k >= len(b) + (0 if k else 1):
                return None
            for j in range(1, k + 1):
                if b[i + j] & 0xc0 != 0x80:
                    return None
                n = n << 6 | b[i + j] & 63
            if n < lo or n > 0x10ffff or 0xd800 <= n < 0xe000:
                return None
            out += chr(n)
            i += k + 1
        return out
    if codec == "utf16":
        if b[:2] == b"\xff\xfe":
            return dec(b[2:], "le")
        if b[:2] == b"\xfe\xff":
            return dec(b[2:], "be")
        return dec(b, "le")
    if len(b) % 2:
        return None
    us = [b[i] << 8 | b[i + 1] if codec == "be" else b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
    out, i = "", 0
    while i < len(us):
        u = us[i]
        if 0xd800 <= u < 0xdc00:
            if i + 1 >= len(us) or not 0xdc00 <= us[i + 1] < 0xe000:
                return None
            out += chr(0x10000 + (u - 0xd800 << 10) + us[i + 1] - 0xdc00)
            i += 2
        elif 0xdc00 <= u < 0xe000:
            return None
        else:
            out += chr(u)
            i += 1
    return out


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64(b):
    out = ""
    for i in range(0, len(b), 3):
        c = b[i:i + 3]
        n = int.from_bytes(c + b"\0" * (3 - len(c)), "big")
        t = "".join(B64[n >> s & 63] for s in (18, 12, 6, 0))
        out += t[:len(c) + 1] + "=" * (3 - len(c))
    return out


def unb64(s):
    body = s.rstrip("=")
    if any(c not in B64 for c in body) or len(s) % 4 or len(body) % 4 == 1:
        raise Err(16220)
    n = 0
    out = []
    for i in range(0, len(body), 4):
        c = body[i:i + 4]
        n = 0
        for x in c + "A" * (4 - len(c)):
            n = n << 6 | B64.index(x)
        out += list(n.to_bytes(3, "big"))[:len(c) - 1]
    return bytes(out)


def beq(got, want):
    return (got.encode("latin-1") if isinstance(got, str) else bytes(got)) == want


CODECS = {"Ascii": "ascii", "Latin1": "latin1", "Utf8": "utf8", "Utf16": "utf16", "Utf16be": "be", "Utf16le": "le"}
ERR = {"Ascii": 0, "Latin1": 10, "Utf8": 20, "Utf16": 30, "Utf16be": 40, "Utf16le": 50}


def codec_subs():
    out = []
    for name, c in CODECS.items():
        def isref(x, c=c):
            if isinstance(x, str):
                return all(ord(k) < 128 for k in x) if c == "ascii" else all(ord(k) < 256 for k in x) if c == "latin1" else True
            return dec(x, c) is not None
        out.append(fnsub("bytes.is" + name, [V([Y], B, lambda d: [by(d)], isref, 3), V([S], B, lambda d: [txt(d)], isref),
                                             V([COMPUTED], B, lambda d: [by(d)], isref, 2)], 300))

        def decref(x, c=c, code=16090 + ERR[name]):
            r = dec(x, c)
            if r is None:
                raise Err(code)
            return r
        out.append(fnsub("bytes.decode" + name, [V([Y], S, lambda d: [by(d)], decref, 2), V([COMPUTED], S, lambda d: [by(d)], decref)], 300))

        def encref(x, c=c, code=16150 + ERR[name]):
            if c == "ascii" and any(ord(k) > 127 for k in x) or c == "latin1" and any(ord(k) > 255 for k in x):
                raise Err(code)
            return b"\xff\xfe" + enc(x, "le") if c == "utf16" else enc(x, c)

        def enceq(got, want, c=c):
            if c == "utf16" and beq(got, b"\xfe\xff" + enc(dec(want[2:], "le"), "be")):
                return True
            return beq(got, want)
        out.append(fnsub("bytes.encode" + name, V([S], Y, lambda d: [txt(d)], encref, eq=enceq), 300))

        def rt(d, name=name, c=c):
            s = txt(d) if c not in ("ascii", "latin1") else d.str(ALPH[0] if c == "ascii" else ALPH[1], 0, 5)
            check_call(d, "bytes.decode" + name, [("via", S, {"bytes.encode" + name: ["$"]})], S, [s], lambda x: x, rel=0)
        out.append(Sub("roundtrip" + name, rt, 100))
    return out


def nslice(n, a, b):
    a = a + n if a < 0 else a
    b = b + n if b < 0 else b
    a = min(max(a, 0), n)
    b = min(max(b, 0), n)
    return a, max(a, b)


def subseq(x, a, b):
    a, b = nslice(len(x), a, b)
    return bytes(x[i] for i in range(a, b))


def subseqto(x, a, b, r):
    a, b = nslice(len(x), a, b)
    return bytes(x[i] for i in range(a)) + r + bytes(x[i] for i in range(b, len(x)))


def ix(d):
    return d.smallint(9) if d.chance(9, 10) else d.pfaint()


def b64bad(d):
    s = b64(by(d))
    k = d.below(5)
    if k == 0:
        return [d.str("AZaz09+/=-_ \n", 0, 6).rstrip("=\n")]
    if k == 1 and s:
        i = d.below(len(s.rstrip("=")))
        return [s[:i] + s[i + 1:]]
    return [s]


def enum_case(d):
    syms = d.sample(["A", "B", "C", "zed", "one", "two", "x_1"], d.int(1, 5))
    t = {"type": "enum", "name": "En", "symbols": syms}
    x = d.choice(syms)
    f = d.choice(["enum.toString", "enum.toInt", "enum.numSymbols"])
    ref = {"enum.toString": lambda v: v, "enum.toInt": lambda v: [i for i, s in enumerate(syms) if s == v][0],
           "enum.numSymbols": lambda v: len(syms)}[f]
    check_call(d, f, [t], S if f == "enum.toString" else I, [x], ref, rel=0)


def fixed_case(d):
    n = d.int(1, 6)
    t = {"type": "fixed", "name": "Fx", "size": n}
    x = bytes(d.below(256) for _ in range(n))
    if d.bool():
        check_call(d, "fixed.toBytes", [t], Y, [x], lambda v: v, eq=beq)
    else:
        r = by(d, 9)
        y = d.choice([Y, COMPUTED])
        orig = d.choice([t, ("via", t, {"fixed.fromBytes": ["$", {"fixed.toBytes": ["$"]}]})])
        check_call(d, "fixed.fromBytes", [orig, y], t, [x, r], lambda o, r: (r + o[len(r):])[:len(o)], eq=beq)


SUBS = codec_subs() + [
    fnsub("bytes.len", [V([Y], I, lambda d: [by(d)], len), V([COMPUTED], I, lambda d: [by(d)], len)], 100),
    fnsub("bytes.subseq", [V([Y, I, I], Y, lambda d: [by(d), ix(d), ix(d)], subseq, eq=beq),
                           V([COMPUTED, I, I], Y, lambda d: [by(d), ix(d), ix(d)], subseq, eq=beq)], 400),
    fnsub("bytes.subseqto", [V([Y, I, I, Y], Y, lambda d: [by(d), ix(d), ix(d), by(d, 4)], subseqto, eq=beq),
                             V([COMPUTED, I, I, COMPUTED], Y, lambda d: [by(d), ix(d), ix(d), by(d, 4)], subseqto, eq=beq)], 400),
    fnsub("bytes.toBase64", [V([Y], S, lambda d: [by(d)], b64), V([COMPUTED], S, lambda d: [by(d)], b64)], 300),
    fnsub("bytes.fromBase64", V([S], Y, b64bad, unb64, eq=beq), 500),
    Sub("enum", enum_case, 300), Sub("fixed", fixed_case, 400),
]
