"""C21: string functions agree with independent references."""
import math
from decimal import Decimal, ROUND_HALF_EVEN

from pbt import Violation
from runner import Sub
from engines import Err, check_call, libcall
from libfn import V, fnsub

RULE = ("one generated call of one string function per case; strings over small ASCII alphabets (to force overlaps), whitespace and "
        "non-ASCII alphabets, indexes in -9..9 and extreme, numbers over all magnitudes; every case runs the function; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["replacing the empty string is left unspecified", "a width of zero in s.number for floating point is left unspecified"]
FACTOR = {"quick": 3, "thorough": 8}

S, I, L, D, B = "string", "int", "long", "double", "boolean"


def st(d, hi=8):
    return d.str(None, 0, hi)


def sub(d, s):
    """a needle: often taken from s"""
    if s and d.chance(2, 3):
        i = d.below(len(s))
        j = i + d.below(4)
        return s[i:j]
    return d.str("ab ", 0, 3)


def needle1(d, s):
    n = sub(d, s)
    return n if n else "a"


def idx(d):
    return d.smallint(9) if d.chance(9, 10) else d.pfaint()


def norm_slice(n, a, b):
    if a < 0:
        a += n
    if b < 0:
        b += n
    a = 0 if a < 0 else n if a > n else a
    b = 0 if b < 0 else n if b > n else b
    if b < a:
        b = a
    return a, b


def substr(s, a, b):
    a, b = norm_slice(len(s), a, b)
    return "".join(s[i] for i in range(a, b))


def substrto(s, a, b, r):
    a, b = norm_slice(len(s), a, b)
    return "".join(s[i] for i in range(a)) + r + "".join(s[i] for i in range(b, len(s)))


def occ(h, n):
    return [i for i in range(len(h) - len(n) + 1) if all(h[i + j] == n[j] for j in range(len(n)))]


def count(h, n):
    if not h or not n:
        return 0
    c, i = 0, 0
    while i <= len(h) - len(n):
        if h[i:i + len(n)] == n:
            c += 1
            i += len(n)
        else:
            i += 1
    return c


def split(s, sep):
    if not sep:
        return []
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i:i + len(sep)] == sep:
            out.append(cur)
            cur = ""
            i += len(sep)
        else:
            cur += s[i]
            i += 1
    return out + [cur]


def join(a, sep):
    out = ""
    for i, x in enumerate(a):
        out = out + (sep if i else "") + x
    return out


def digits(x, base):
    if x == 0:
        return "0"
    neg, x = x < 0, abs(x)
    out = ""
    while x:
        out = "0123456789abcdef"[x % base] + out
        x //= base
    return ("-" if neg else "") + out


def pad(t, width):
    if width < 0:
        return t + " " * (-width - len(t))
    return " " * (width - len(t)) + t


def hexref(x, *wz):
    if x < 0:
        raise Err(39111)
    return fmtint(digits(x, 16), 39110, *wz)


def fmtint(t, code, *wz):
    if not wz:
        return t
    width, zp = wz
    if zp and width < 0:
        raise Err(code)
    if width == 0:
        return ""
    if not zp:
        return pad(t, width)
    if t.startswith("-"):
        return "-" + "0" * (width - len(t)) + t[1:]
    return "0" * (width - len(t)) + t


def fixed(x, p):
    """exact decimal expansion of a double rounded half-even to p places"""
    q = Decimal(x).quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
    t = "{:f}".format(q)
    return t


def expo(x, p):
    if x == 0:
        return ("0." + "0" * p if p else "0") + "e+00"
    dx = Decimal(x)
    e = dx.adjusted()
    m = (dx.scaleb(-e)).quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
    if abs(m) >= 10:
        e += 1
        m = (dx.scaleb(-e)).quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
    return "{:f}".format(m) + "e" + ("-" if e < 0 else "+") + "%02d" % abs(e)


def numref(x, width, prec, lo=0.0001, hi=100000.0):
    import decimal
    decimal.getcontext().prec = 800
    width = width["int"] if isinstance(width, dict) else width
    prec = prec["int"] if isinstance(prec, dict) else prec
    if prec is not None and prec < 0:
        raise Err(39121)
    p = 6 if prec is None else prec
    if x != x:
        t = "nan"
    elif math.isinf(x):
        t = "inf" if x > 0 else "-inf"
    else:
        if x == 0:
            x = 0.0
        if x == 0 or lo <= abs(x) <= hi:
            t = fixed(x, p)
            man, ex = t, ""
        else:
            t = expo(x, p)
            man, ex = t[:t.index("e")], t[t.index("e"):]
        if prec is None:
            while man.endswith("0") and not man.endswith(".0"):
                man = man[:-1]
        t = man + ex
    return t if width is None else pad(t, width)


def number_case(d):
    x = d.pfadouble()
    if d.chance(1, 3):
        x = d.smallint(10**6) / 10.0 ** d.int(0, 9)
    w = d.weighted([(2, None), (3, "w")])
    if w == "w":
        w = d.smallint(14) or 3
    p = d.weighted([(2, None), (3, "p")])
    if p == "p":
        p = d.int(-1, 8)
    args = [x, None if w is None else {"int": w}, None if p is None else {"int": p}]
    if d.chance(1, 3):
        lo, hi = d.choice([(0.0001, 100000.0), (0.1, 10.0), (1.0, 1e6), (1e-9, 1e9)])
        check_call(d, "s.number", [D, ["int", "null"], ["int", "null"], D, D], S, args + [lo, hi], numref)
    else:
        check_call(d, "s.number", [D, ["int", "null"], ["int", "null"]], S, args, numref)


def lower(s):
    t = {ord(c): c.lower() for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
    t.update({0xc9: u"\u00e9", 0x391: u"\u03b1"})
    return s.translate(t)


def upper(s):
    t = {ord(c): c.upper() for c in "abcdefghijklmnopqrstuvwxyz"}
    t.update({0xe9: u"\u00c9", 0x3b1: u"\u0391"})
    return s.translate(t)


def lstrip(s, c):
    i = 0
    while i < len(s) and s[i] in list(c):
        i += 1
    return s[i:]


def rstrip(s, c):
    i = len(s)
    while i > 0 and s[i - 1] in list(c):
        i -= 1
    return s[:i]


def replall(s, o, r):
    return join(split(s, o), r)


def replfirst(s, o, r):
    k = occ(s, o)
    return s[:k[0]] + r + s[k[0] + len(o):] if k else s


def repllast(s, o, r):
    k = occ(s, o)
    return s[:k[-1]] + r + s[k[-1] + len(o):] if k else s


def translate(s, old, new):
    out = ""
    for c in s:
        k = [i for i in range(len(old)) if old[i] == c]
        if not k:
            out += c
        elif k[0] < len(new):
            out += new[k[0]]
    return out


def hs(d):
    s = st(d)
    return [s, sub(d, s)]


def intargs(d):
    x = d.pfalong()
    return [x]


def int3(d):
    return [d.pfalong(), d.smallint(25), d.bool()]


def cross_case(d):
    """s.substr/substrto use the same index arithmetic as a.subseq/subseqto; split and join are inverse; concat/len"""
    s = st(d)
    a, b = idx(d), idx(d)
    r = st(d, 3)
    d.note((s, a, b, r))
    d.sut()
    x = libcall("s.substr", [S, I, I], S)(s, a, b)
    y = libcall("a.subseq", [{"type": "array", "items": S}, I, I], {"type": "array", "items": S})(list(s), a, b)
    if x[1] != "".join(y[1]):
        raise Violation("s.substr(%r, %d, %d) = %r but a.subseq gives %r" % (s, a, b, x[1], y[1]))
    x = libcall("s.substrto", [S, I, I, S], S)(s, a, b, r)
    y = libcall("a.subseqto", [{"type": "array", "items": S}, I, I, {"type": "array", "items": S}], {"type": "array", "items": S})(list(s), a, b, list(r))
    if x[1] != "".join(y[1]):
        raise Violation("s.substrto(%r, %d, %d, %r) = %r but a.subseqto gives %r" % (s, a, b, r, x[1], y[1]))
    sep = needle1(d, s)
    x = libcall("s.split", [S, S], {"type": "array", "items": S})(s, sep)
    y = libcall("s.join", [{"type": "array", "items": S}, S], S)(x[1], sep)
    if y[1] != s:
        raise Violation("joining the split of %r by %r gives %r" % (s, sep, y[1]))
    d.nontrivial(repr((s, a, b, r, sep)))


def w(x):
    return x if isinstance(x, list) else [x]


SUBS = [
    fnsub("s.len", V([S], I, lambda d: [st(d, 12)], lambda s: sum(1 for _ in s))),
    fnsub("s.substr", V([S, I, I], S, lambda d: [st(d), idx(d), idx(d)], substr), 400),
    fnsub("s.substrto", V([S, I, I, S], S, lambda d: [st(d), idx(d), idx(d), st(d, 3)], substrto), 400),
    fnsub("s.contains", V([S, S], B, hs, lambda h, n: bool(occ(h, n)))),
    fnsub("s.count", V([S, S], I, hs, count), 400),
    fnsub("s.index", V([S, S], I, hs, lambda h, n: (occ(h, n) + [-1])[0])),
    fnsub("s.rindex", V([S, S], I, hs, lambda h, n: ([-1] + occ(h, n))[-1])),
    fnsub("s.startswith", V([S, S], B, hs, lambda h, n: 0 in occ(h, n))),
    fnsub("s.endswith", V([S, S], B, hs, lambda h, n: (len(h) - len(n)) in occ(h, n))),
    fnsub("s.join", V([{"type": "array", "items": S}, S], S, lambda d: [d.list(lambda: st(d, 3), 0, 4), st(d, 2)], join)),
    fnsub("s.split", V([S, S], {"type": "array", "items": S}, hs, split), 400),
    fnsub("s.hex", [V([L], S, intargs, hexref), V([L, I, B], S, int3, hexref)], 400),
    fnsub("s.int", [V([L], S, intargs, lambda x: digits(x, 10)), V([L, I, B], S, int3, lambda x, *a: fmtint(digits(x, 10), 39240, *a))], 400),
    fnsub("s.number", [V([L], S, intargs, lambda x: digits(x, 10)),
                           V([I, I, B], S, lambda d: [d.pfaint(), d.smallint(20), d.bool()], lambda x, *a: fmtint(digits(x, 10), 39120, *a))], 200,
          name="s.number-int"),
    Sub("s.number", number_case, 900, 20000),
    fnsub("s.concat", V([S, S], S, lambda d: [st(d), st(d)], lambda a, b: join([a, b], ""))),
    fnsub("s.repeat", V([S, I], S, lambda d: [st(d, 4), d.int(-2, 12)], lambda s, n: join([s] * max(0, n), ""))),
    fnsub("s.lower", V([S], S, lambda d: [d.str(u"aAbBzZmM09 -\u00e9\u00c9\u03b1\u0391\u65e5", 0, 8)], lower)),
    fnsub("s.upper", V([S], S, lambda d: [d.str(u"aAbBzZmM09 -\u00e9\u00c9\u03b1\u0391\u65e5", 0, 8)], upper)),
    fnsub("s.lstrip", V([S, S], S, lambda d: [d.str("ab c", 0, 7), d.str("abc ", 0, 3)], lstrip)),
    fnsub("s.rstrip", V([S, S], S, lambda d: [d.str("ab c", 0, 7), d.str("abc ", 0, 3)], rstrip)),
    fnsub("s.strip", V([S, S], S, lambda d: [d.str("ab c", 0, 7), d.str("abc ", 0, 3)], lambda s, c: rstrip(lstrip(s, c), c))),
    fnsub("s.replaceall", V([S, S, S], S, lambda d: (lambda s: [s, needle1(d, s), st(d, 3)])(st(d)), replall), 400),
    fnsub("s.replacefirst", V([S, S, S], S, lambda d: (lambda s: [s, needle1(d, s), st(d, 3)])(st(d)), replfirst), 400),
    fnsub("s.replacelast", V([S, S, S], S, lambda d: (lambda s: [s, needle1(d, s), st(d, 3)])(st(d)), repllast), 400),
    fnsub("s.translate", V([S, S, S], S, lambda d: [d.str("abcde", 0, 8), d.str("abcd", 0, 4), d.str("wxyz", 0, 4)], translate), 400),
    Sub("index-agreement", cross_case, 400),
]
