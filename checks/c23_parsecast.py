"""C23: parse, cast and impute functions against independent references."""
import json
import math
import io
from fractions import Fraction

import avt
from avt import U
from pbt import Violation, show
from runner import Sub
from engines import Err, check_call, libcall, norm
from libfn import V, fnsub

RULE = ("one generated call per case: number texts assembled from signs, digits of every base, spaces, junk, exponents and boundary values; numbers of "
        "every size for casts; generated Avro types and values for cast.json and cast.avro; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["texts with underscores or base prefixes (0x...) are left unspecified", "cast.float keeps double precision in this engine",
               "floats within one rounding error of a half may round either way"]

S, I, L, F, D, B = "string", "int", "long", "float", "double", "boolean"
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def todigits(n, base):
    if n == 0:
        return "0"
    out = ""
    m = abs(n)
    while m:
        out = DIG[m % base] + out
        m //= base
    return ("-" if n < 0 else "") + out


def inttext(d, long):
    base = d.choice([10, 10, 10, 2, 8, 16, 36, 3, 7]) if d.chance(9, 10) else d.choice([1, 0, -1, 37, 100])
    k = d.below(8)
    if k < 4:
        n = d.pfalong() if long or d.chance(1, 3) else d.pfaint()
        if d.chance(1, 4):
            n = d.choice([2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1])
        t = todigits(n, base if 2 <= base <= 36 else 10)
        if d.bool():
            t = t.upper()
        if n >= 0 and d.chance(1, 5):
            t = "+" + t
        if d.chance(1, 5):
            t = t.replace("-", "-00") if n < 0 else ("00" + t if not t.startswith("+") else t)
    elif k < 6:
        t = d.str("0123456789", 0, 4) + d.str("019afzAZ-+. ", 0, 3)
    else:
        t = d.str("01 -+ez.", 0, 4)
    if d.chance(1, 4):
        t = d.choice([" ", "  ", "\t", "\n"]) + t + d.choice(["", " "])
    return [t, base]


def parseint(lo, hi, code):
    def ref(s, base):
        if base < 2 or base > 36:
            raise Err(code + 1)
        t = s.strip(" \t\n")
        neg = t.startswith("-")
        if t[:1] in ("-", "+"):
            t = t[1:]
        if not t:
            raise Err(code)
        n = 0
        for c in t.lower():
            v = DIG.find(c)
            if v < 0 or v >= base:
                raise Err(code)
            n = n * base + v
        n = -n if neg else n
        if not lo <= n <= hi:
            raise Err(code)
        return n
    return ref


def prefixed(args):
    t = args[0].strip().lower().lstrip("+-")
    if args[0].strip()[:1] in ("-", "+") and args[0].strip()[1:2].isspace():
        return True      # a space after the sign: int() of this interpreter accepts it
    return "_" in t or (args[1] == 16 and t.startswith("0x")) or (args[1] == 8 and t.startswith("0o")) or (args[1] == 2 and t.startswith("0b"))


def intgen(long):
    def g(d):
        a = inttext(d, long)
        return ["7", 10] if prefixed(a) else a
    return g


def floattext(d):
    k = d.below(8)
    if k == 0:
        return [d.choice(["nan", "NaN", "inf", "-inf", "Infinity", "-Infinity", "INF", "+inf", "1e400", "-1e400", "1e-400", "3.5e38", "-3.5e38", "3.4e38", "1e-46", "2e308"])]
    if k == 1:
        return [d.str("0123.e+- x", 0, 6)]
    t = d.choice(["", "-", "+"]) + d.str("0123456789", 0, 4)
    if d.bool():
        t += "." + d.str("0123456789", 0, 6)
    if d.bool():
        t += d.choice("eE") + d.choice(["", "-", "+"]) + d.str("0123456789", 0, 2)
    if d.chance(1, 5):
        t = " " + t + d.choice(["", " ", "\n"])
    return [t]


def parsefloat(code, single):
    def ref(s):
        t = s.strip(" \t\n")
        sign = -1 if t.startswith("-") else 1
        if t[:1] in ("-", "+"):
            t = t[1:]
        if t.lower() in ("inf", "infinity"):
            return sign * float("inf")
        if t.lower() == "nan":
            return float("nan")
        man, ex = t, "0"
        for i, c in enumerate(t):
            if c in "eE":
                man, ex = t[:i], t[i + 1:]
                break
        a, dot, b = man.partition(".")
        if not (a + b) or any(c not in "0123456789" for c in a + b):
            raise Err(code)
        e = ex[1:] if ex[:1] in ("-", "+") else ex
        if not e or any(c not in "0123456789" for c in e):
            raise Err(code)
        v = Fraction(int(a + b) * sign) * Fraction(10) ** (int(ex) - len(b))
        if single and abs(v) > Fraction(3.4028235e38):
            return sign * float("inf")
        if single and abs(v) < Fraction(1.4e-45):
            return 0.0
        try:
            return float(v)
        except OverflowError:
            return sign * float("inf")
    return ref


def signed(x, bits):
    if not 2 <= bits <= 64:
        raise Err(17000)
    m = x % (1 << bits)
    return m - (1 << bits) if m >= 1 << (bits - 1) else m


def unsigned(x, bits):
    if not 1 <= bits <= 63:
        raise Err(17010)
    return x % (1 << bits)


def bitargs(d):
    b = d.choice([1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 62, 63, 64]) if d.chance(5, 6) else d.choice([0, -1, 65, 1000])
    k = d.below(3)
    x = d.pfalong() if k else d.choice([0, 1, -1]) + d.choice([1, -1, 3, -3, 2]) * (1 << max(0, min(60, b - d.below(2))))
    return [x, b]


def tonum(d, fcn):
    t = d.choice([I, L, F, D])
    if t == I:
        x = d.pfaint()
    elif t == L:
        x = d.pfalong()
    else:
        x = d.pfadouble()
        if d.chance(1, 3):
            x = d.smallint(40) / 2.0 + d.choice([0.0, 0.0, 1e-6, -1e-6])
    return t, x


def toint_case(fcn, ret, lo, hi, code):
    def case(d):
        t, x = tonum(d, fcn)

        def ref(x):
            if isinstance(x, float):
                if x != x or math.isinf(x):
                    raise Err(code)
                f = Fraction(x) + Fraction(1, 2)
                x = f.numerator // f.denominator
            if not lo <= x <= hi:
                raise Err(code)
            return x

        def eq(got, want):
            if got == want:
                return True
            if not isinstance(x, float):
                return False
            half = (Fraction(x) * 2).denominator == 1 and (Fraction(x) * 2).numerator % 2 == 1
            return abs(got - want) <= max(1, abs(want) * 2**-52) and (abs(x) > 2**52 or not half and abs(abs(Fraction(x) - want) - Fraction(1, 2)) < Fraction(1, 10**9))
        if isinstance(x, float) and abs(abs(x) - 2.0**63) < 4096:
            x = 5.0
        check_call(d, fcn, [t], ret, [x], ref, eq=eq)
    return Sub(fcn, case, 500, 10000)


def tofloat_case(fcn, ret):
    def case(d):
        t, x = tonum(d, fcn)
        check_call(d, fcn, [t], ret, [x], lambda x: float(x), rel=1e-15)
    return Sub(fcn, case, 200, 4000)


def fan_case(fcn, item, one, zero, code):
    def case(d):
        k = d.below(3)
        if k == 0:
            syms = d.sample(["A", "B", "C", "zed", "one"], d.int(1, 5))
            x = d.choice(syms)
            check_call(d, fcn, [{"type": "enum", "name": "En", "symbols": syms}], {"type": "array", "items": item}, [x],
                       lambda x: [one if x == s else zero for s in syms], rel=0)
        elif k == 1:
            dic = d.list(lambda: d.choice(["a", "b", "c", "dd", ""]), 0, 4)
            x = d.choice(["a", "b", "c", "dd", "", "zz"])
            oor = d.bool()

            def ref(x, dic, oor):
                if len(set(dic)) != len(dic):
                    raise Err(code)
                return [one if x == s else zero for s in dic] + ([one if x not in dic else zero] if oor else [])
            check_call(d, fcn, [S, {"type": "array", "items": S}, B], {"type": "array", "items": item}, [x, dic, oor], ref, rel=0)
        else:
            lo = d.smallint(5)
            hi = lo + d.int(0, 6)
            x = d.smallint(10)
            oor = d.bool()
            check_call(d, fcn, [I, I, I, B], {"type": "array", "items": item}, [x, lo, hi, oor],
                       lambda x, lo, hi, oor: [one if x == i else zero for i in range(lo, hi)] + ([one if not lo <= x < hi else zero] if oor else []), rel=0)
    return Sub(fcn, case, 300, 6000)


def typed_value(d, **kw):
    env = avt.gen_env(d, 3)
    t = avt.gen_type(d, env, 2, **kw)
    v = avt.gen_value(d, t, env)
    return env, t, v


def json_case(d):
    env, t, v = typed_value(d)
    j = avt.tojson(t, env, set())
    d.note({"type": j, "value": v})
    d.sut()
    got = libcall("cast.json", [j], S)(avt.toinput(v, t, env))
    if got[0] != "ok":
        raise Violation("cast.json: %s" % (got,))
    back = json.loads(got[1])
    want = avt.tojsonvalue(v, t, env)
    if not jsame(back, want):
        raise Violation("cast.json of %s (type %s) gave %s" % (show(v), show(j), got[1]))
    d.nontrivial(repr((j, v)))
    d.label(t[0])


def jsame(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(jsame(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def zig(n):
    n = n << 1 if n >= 0 else (-n << 1) - 1
    out = []
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes(out + [n])


class R(object):
    """independent Avro binary decoder"""
    def __init__(self, b):
        self.b, self.i = b, 0

    def raw(self, n):
        if self.i + n > len(self.b):
            raise Violation("cast.avro output too short")
        x = self.b[self.i:self.i + n]
        self.i += n
        return x

    def long(self):
        n = s = 0
        while True:
            x = self.raw(1)[0]
            n |= (x & 127) << s
            s += 7
            if x < 128:
                break
        return n >> 1 if n & 1 == 0 else -(n >> 1) - 1

    def read(self, t, env):
        import struct
        k = t[0]
        if k == "null":
            return None
        if k == "boolean":
            return self.raw(1) == b"\1"
        if k in ("int", "long"):
            return self.long()
        if k == "float":
            return struct.unpack("<f", self.raw(4))[0]
        if k == "double":
            return struct.unpack("<d", self.raw(8))[0]
        if k == "string":
            return self.raw(self.long()).decode("utf-8")
        if k == "bytes":
            return self.raw(self.long())
        if k == "fixed":
            return self.raw(env.fixeds[t[1]])
        if k == "enum":
            return env.enums[t[1]][self.long()]
        if k in ("array", "map"):
            out = [] if k == "array" else {}
            while True:
                n = self.long()
                if n == 0:
                    return out
                if n < 0:
                    n = -n
                    self.long()
                for _ in range(n):
                    if k == "array":
                        out.append(self.read(t[1], env))
                    else:
                        key = self.raw(self.long()).decode("utf-8")
                        out[key] = self.read(t[1], env)
        if k == "union":
            x = t[1][self.long()]
            v = self.read(x, env)
            return None if x[0] == "null" else U(avt.tag(x), v)
        if k == "record":
            return {f[0]: self.read(f[1], env) for f in env.records[t[1]]}


def avro_case(d):
    env, t, v = typed_value(d)
    j = avt.tojson(t, env, set())
    d.note({"type": j, "value": v})
    d.sut()
    got = libcall("cast.avro", [j], "bytes")(avt.toinput(v, t, env))
    if got[0] != "ok":
        raise Violation("cast.avro: %s" % (got,))
    b = got[1].encode("latin-1") if isinstance(got[1], str) else got[1]
    r = R(b)
    back = r.read(t, env)
    if r.i != len(b):
        raise Violation("cast.avro: %d trailing bytes" % (len(b) - r.i))
    if not same_model(back, v):
        raise Violation("cast.avro of %s (type %s) decodes to %s" % (show(v), show(j), show(back)))
    d.nontrivial(repr((j, v)))
    d.label(t[0])


def same_model(a, b):
    if isinstance(a, U) or isinstance(b, U):
        return isinstance(a, U) and isinstance(b, U) and a.tag == b.tag and same_model(a.v, b.v)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_model(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_model(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def null_case(d):
    """errorOnNull / defaultOnNull over nullable unions and plain types"""
    env = avt.gen_env(d, 2, recursive=False)
    base = avt.gen_type(d, env, 1, union=False)
    while base[0] == "null":
        base = avt.INT
    if d.chance(2, 3):
        t = d.choice([avt.UNION(base, avt.NULL), avt.UNION(avt.NULL, base)])
        ret = base
    else:
        t = ret = base
    v = avt.gen_value(d, t, env)
    dv = avt.gen_value(d, ret, env)
    decl = set()
    j = avt.tojson(t, env, decl)
    decl2 = set()
    jt, jr = avt.tojson(t, env, decl2), avt.tojson(ret, env, set())
    d.note({"type": jt, "value": v, "default": dv})
    d.sut()
    inp = avt.toinput(v, t, env)
    want = v.v if isinstance(v, U) and ret[0] != "union" else v
    if d.bool():
        got = libcall("impute.errorOnNull", [jt], jr)(inp)
        if v is None:
            if got != ("err", 21000):
                raise Violation("impute.errorOnNull(null): %s" % (got,))
            return
    else:
        got = libcall("impute.defaultOnNull", [jt, jr], jr)(inp, avt.toinput(dv, ret, env))
        if v is None:
            want = dv
    if got[0] != "ok" or not avt.match(got[1], want, ret, env):
        raise Violation("impute on %s of type %s: got %s, expected %s" % (show(inp), show(jt), show(got), show(want)))
    d.nontrivial(repr((jt, v, dv)))
    d.label("null" if v is None else "value")


def nonnum(d):
    return d.choice([float("nan"), float("inf"), float("-inf")]) if d.bool() else d.pfadouble()


def eonn(x):
    if x != x:
        raise Err(21050)
    if x == float("inf"):
        raise Err(21051)
    if x == float("-inf"):
        raise Err(21052)
    return x


def fd(fcn, ref, ret=None, two=False):
    return fnsub(fcn, [V([t, t] if two else [t], ret or t, lambda d: [nonnum(d), nonnum(d)][:2 if two else 1], ref, rel=0) for t in (F, D)], 150)


SUBS = [
    fnsub("parse.int", V([S, I], I, intgen(False), parseint(-2**31, 2**31 - 1, 33000)), 900, 20000),
    fnsub("parse.long", V([S, I], L, intgen(True), parseint(-2**63, 2**63 - 1, 33010)), 900, 20000),
    fnsub("parse.float", V([S], F, floattext, parsefloat(33020, True), rel=1e-15, abs_=0), 600, 12000),
    fnsub("parse.double", V([S], D, floattext, parsefloat(33030, False), rel=1e-15, abs_=0), 600, 12000),
    fnsub("cast.signed", [V([L, I], L, bitargs, signed), V([I, I], L, lambda d: [d.pfaint(), bitargs(d)[1]], signed)], 500),
    fnsub("cast.unsigned", [V([L, I], L, bitargs, unsigned), V([I, I], L, lambda d: [d.pfaint(), bitargs(d)[1]], unsigned)], 500),
    toint_case("cast.int", I, -2**31, 2**31 - 1, 17020), toint_case("cast.long", L, -2**63, 2**63 - 1, 17030),
    tofloat_case("cast.float", F), tofloat_case("cast.double", D),
    fan_case("cast.fanoutBoolean", B, True, False, 17060), fan_case("cast.fanoutInt", I, 1, 0, 17070), fan_case("cast.fanoutLong", L, 1, 0, 17080),
    fan_case("cast.fanoutFloat", F, 1.0, 0.0, 17090), fan_case("cast.fanoutDouble", D, 1.0, 0.0, 17100),
    Sub("cast.json", json_case, 700, 15000), Sub("cast.avro", avro_case, 700, 15000),
    Sub("impute-null", null_case, 600, 12000),
    fd("impute.isnan", lambda x: x != x, B), fd("impute.isinf", lambda x: abs(x) == float("inf"), B),
    fd("impute.isnum", lambda x: x == x and abs(x) != float("inf"), B),
    fd("impute.errorOnNonNum", eonn), fd("impute.defaultOnNonNum", lambda x, y: x if x == x and abs(x) != float("inf") else y, None, True),
]
