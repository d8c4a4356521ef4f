"""C20: numeric operators and the math library agree with an independent model."""
import math
from fractions import Fraction

import pbt
from pbt import Violation, close
from runner import Sub
from engines import Err, check_call
from libfn import V, fnsub

RULE = ("one generated call of one numeric library function per case: argument types drawn over int/long/float/double (also mixed), "
        "values over small, boundary and special numbers; a case is non-trivial when the call reached the function (every case does); "
        "distinct = distinct (function, types, arguments)")
ASSUMPTIONS = ["float arithmetic is carried out in double precision by this engine; references use double precision with relative tolerance 1e-9",
               "results of inexact integer powers beyond 2^53 are compared with relative tolerance 1e-12"]
FACTOR = {"quick": 4, "thorough": 8}

IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1
TYPES = ["int", "long", "float", "double"]
INF, NAN = float("inf"), float("nan")


def gen_num(d, t):
    if t == "int":
        return d.pfaint()
    if t == "long":
        return d.pfalong()
    return d.pfadouble()


def rng(t, v, base):
    if t == "int" and not (IMIN <= v <= IMAX):
        raise Err(base)
    if t == "long" and not (LMIN <= v <= LMAX):
        raise Err(base + 1)
    return v


def mixed(fcn, ref, quick=500, types=TYPES, arity=2, gen=None):
    """ref(t, *args) where t is the broadest type"""
    def case(d):
        ts = [d.choice(types) for _ in range(arity)]
        if d.chance(2, 3):
            ts = [ts[0]] * arity
        t = TYPES[max(TYPES.index(x) for x in ts)]
        args = gen(d, ts) if gen else [gen_num(d, x) for x in ts]
        if t in ("float", "double"):
            # integers beyond 2^53 promoted to double: not representable, skip by construction
            args = [a if isinstance(a, float) or abs(a) <= 2**53 else a % 2**53 for a in args]
        refargs = [float(a) for a in args] if t in ("float", "double") else args
        check_call(d, fcn, ts, t, args, lambda *xs: ref(t, *xs), refargs=refargs)
    return Sub(fcn, case, quick, quick * 25)


def fmul(a, b):
    try:
        return a * b
    except OverflowError:
        return INF


def plus(t, x, y):
    return rng(t, x + y, 18000)


def minus(t, x, y):
    return rng(t, x - y, 18010)


def times(t, x, y):
    return rng(t, fmul(x, y), 18020)


def floordiv(t, x, y):
    if y == 0:
        raise Err(18040)
    q = abs(x) // abs(y)
    return rng(t, q if (x < 0) == (y < 0) else -q, 18041)


def neg(t, x):
    return rng(t, -x, 18050)


def mod(t, x, y):
    if t in ("int", "long"):
        if y == 0:
            raise Err(18060)
        r = abs(x) % abs(y)
        r = -r if x < 0 else r
        if r != 0 and (r < 0) != (y < 0):
            r += y
        return r
    if y == 0 or math.isinf(x) or math.isnan(x) or math.isnan(y):
        return NAN
    if math.isinf(y):
        return x if (x >= 0) == (y > 0) or x == 0 else math.copysign(INF, y)
    r = math.fmod(x, y)
    if r != 0 and (r < 0) != (y < 0):
        r += y
    return r


def rem(t, x, y):
    if t in ("int", "long"):
        if y == 0:
            raise Err(18070)
        r = abs(x) % abs(y)
        return -r if x < 0 else r
    if y == 0 or math.isinf(x) or math.isnan(x) or math.isnan(y):
        return NAN
    if math.isinf(y):
        return x
    return math.fmod(x, y)


def jpow(x, y):
    """IEEE/Java pow for doubles"""
    if y == 0:
        return 1.0
    if x != x or y != y:
        return NAN
    if math.isinf(y):
        if abs(x) == 1:
            return NAN
        return INF if (abs(x) > 1) == (y > 0) else 0.0
    if math.isinf(x):
        odd = y == math.floor(y) and math.fmod(y, 2) != 0
        if y < 0:
            return 0.0
        return -INF if x < 0 and odd else INF
    if x == 0:
        return 0.0 if y > 0 else INF
    if x < 0 and y != math.floor(y):
        return NAN
    try:
        return math.pow(x, y)
    except OverflowError:
        return INF


def pow_case(d):
    ts = [d.choice(TYPES) for _ in range(2)]
    if d.chance(2, 3):
        ts = [ts[0]] * 2
    t = TYPES[max(TYPES.index(x) for x in ts)]
    if t in ("int", "long"):
        x = d.weighted([(3, None), (1, "big")])
        x = d.smallint(12) if x is None else (d.pfaint() if ts[0] == "int" else d.choice([3037000499, 3037000500, 2**31, 46341, -46341, 2**32, 10**6, 10**9]))
        y = d.smallint(3) if d.bool() else d.int(0, 70)
    else:
        x, y = gen_num(d, ts[0]), gen_num(d, ts[1])
        if isinstance(x, int):
            x = x % 1000
        if isinstance(y, int):
            y = y % 100 - 50

    def ref(x, y):
        if t in ("int", "long"):
            if x == 0 and y < 0:
                raise Err(18080 if t == "int" else 18081)
            v = x ** y if y >= 0 else int(Fraction(1) / (Fraction(x) ** -y))
            return rng(t, v, 18080)
        return jpow(float(x), float(y))

    def eq(got, want):
        if t in ("int", "long"):
            if not isinstance(got, int) or isinstance(got, bool):
                return False
            return got == want if abs(want) <= 2**53 else abs(got - want) <= 1e-12 * abs(want)
        if isinstance(want, float) and math.isinf(want) and not math.isinf(x) and not math.isinf(y):
            return math.isinf(got)      # the sign of an overflowed odd power is left open
        return close(got, want, 1e-9, 1e-300)
    # an exact long result that rounds up to 2^63 in double precision may also be reported as an overflow
    if t in ("int", "long") and y >= 0 and 2**63 - 2**12 <= abs(x ** y) <= 2**63:
        return
    check_call(d, "**", ts, t, [x, y], ref, eq=eq)


def bits(fcn, op, quick=300):
    def case(d):
        t = d.choice(["int", "long"])
        xs = [gen_num(d, t) for _ in range(1 if fcn == "~" else 2)]
        check_call(d, fcn, [t] * len(xs), t, xs, op)
    return Sub(fcn, case, quick, quick * 25)


def one(fcn, ref, gen=None, rel=1e-9, abs_=1e-12, quick=300):
    def case(d):
        t = d.choice(["int", "float", "double", "double", "long"])
        x = (gen or gen_num)(d, t)
        if isinstance(x, int) and abs(x) > 2**53:
            x = x % 2**53
        check_call(d, fcn, [t], "double", [x], lambda v: ref(float(v)), rel=rel, abs_=abs_)
    return Sub(fcn, case, quick, quick * 25)


def dom(f, ok=lambda x: True, bad=NAN):
    def g(x):
        if x != x:
            return NAN
        if not ok(x):
            return bad
        return f(x)
    return g


def safe_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def cosh(x):
    try:
        return math.cosh(x)
    except OverflowError:
        return INF


def sinh(x):
    try:
        return math.sinh(x)
    except OverflowError:
        return INF if x > 0 else -INF


def ln(x):
    return NAN if x != x or x < 0 else -INF if x == 0 else INF if math.isinf(x) else math.log(x)


def log10(x):
    return NAN if x != x or x < 0 else -INF if x == 0 else INF if math.isinf(x) else math.log10(x)


def ln1p(x):
    return NAN if x != x or x < -1 else -INF if x == -1 else INF if math.isinf(x) else math.log1p(x)


def logb(x, b):
    if b <= 0:
        raise Err(27170)
    if x != x or x < 0:
        return NAN
    if x == 0:
        return -INF
    if b == 1:
        return -INF if x < 1 else NAN if x == 1 else INF
    return INF if math.isinf(x) else math.log(x) / math.log(b)


def floor(x):
    return x if x != x or math.isinf(x) else float(math.floor(x))


def ceil(x):
    return x if x != x or math.isinf(x) else float(math.ceil(x))


def rint(x):
    if x != x or math.isinf(x):
        return x
    f = Fraction(x)
    n = f.numerator // f.denominator
    r = f - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2 == 1):
        n += 1
    return float(n)


def halfy(d, t):
    """numbers around integers and halves"""
    if d.bool() and t in ("float", "double"):
        return d.smallint(20) / 2.0 + d.choice([0.0, 0.0, 1e-6, -1e-6, 0.25])
    return gen_num(d, t)


def angle(d, t):
    if t in ("float", "double") and d.chance(3, 4):
        return d.smallint(2000) / 100.0
    if t in ("float", "double"):
        return d.choice([INF, -INF, NAN, 0.0, 1.0, -1.0, 1e-9, 20.5])
    return d.smallint(50)


def unitish(d, t):
    if t in ("float", "double") and d.chance(3, 4):
        return d.smallint(130) / 100.0
    return gen_num(d, t)


def round_case(d):
    t = d.choice(["float", "double"])
    x = halfy(d, t)

    def ref(x):
        if x != x or math.isinf(x):
            raise Err(27190 if t == "float" else 27191)
        f = Fraction(x) + Fraction(1, 2)
        n = f.numerator // f.denominator
        if t == "float" and not IMIN <= n <= IMAX:
            raise Err(27190)
        if t == "double" and not LMIN <= n <= LMAX:
            raise Err(27191)
        return n

    def eq(got, want):
        if not isinstance(got, int) or isinstance(got, bool):
            return False
        # x + 0.5 is rounded in double precision, so neighbours of a half may go either way, and large odd numbers too
        f = Fraction(x)
        near = abs(f - Fraction(1, 2) - (f - Fraction(1, 2)).__round__()) < Fraction(1, 10**9) and (f * 2).denominator != 1
        return got == want or (near or abs(x) > 2**52) and abs(got - want) <= 1 + (abs(want) * 2**-52)
    if not (x != x or math.isinf(x)) and (abs(abs(x) - 2.0**63) < 2**12):
        return
    check_call(d, "m.round", [t], "int" if t == "float" else "long", [x], ref, eq=eq)


def signum_case(d):
    t = d.choice(TYPES)
    x = gen_num(d, t)
    check_call(d, "m.signum", [t], "int", [x], lambda v: 0 if v != v or v == 0 else 1 if v > 0 else -1, rel=0)


def copysign(t, mag, sign):
    return rng(t, -abs(mag) if sign < 0 else abs(mag), 27080)


def copygen(d, ts):
    out = [gen_num(d, ts[0]), gen_num(d, ts[1])]
    # the sign of NaN is not observable; the sign of negative zero is platform dependent
    return [a if a == a and a != 0 else 1 for a in out]


def abs_(t, x):
    return rng(t, abs(x), 27020)


def two_double(fcn, ref, gen, quick=300, rel=1e-9, abs__=1e-12):
    def case(d):
        ts = [d.choice(["int", "float", "double", "double", "long"]) for _ in range(2)]
        xs = [gen(d, t) for t in ts]
        xs = [x % 2**53 if isinstance(x, int) and abs(x) > 2**53 else x for x in xs]
        check_call(d, fcn, ts, "double", xs, ref, refargs=[float(x) for x in xs], rel=rel, abs_=abs__)
    return Sub(fcn, case, quick, quick * 25)


def divide(x, y):
    if y == 0:
        return NAN if x == 0 or x != x else math.copysign(INF, x)
    return x / y


def divgen(d, t):
    x = gen_num(d, t)
    return 0 if x == 0 else x       # -0.0 as a divisor is left out: 1/-0.0 is not specified


def hypot(x, y):
    if math.isinf(x) or math.isinf(y):
        return INF
    return math.hypot(x, y)


def atan2(y, x):
    return NAN if x != x or y != y else math.atan2(y, x)


def const(fcn, value):
    def case(d):
        check_call(d, fcn, [], "double", [], lambda: value, rel=1e-15)
    return Sub(fcn, case, 8, 8)


def log_case(d):
    t = d.choice(["int", "double", "double", "long"])
    x = gen_num(d, t)
    if isinstance(x, int):
        x = x % 2**53
    b = d.smallint(12) if d.chance(3, 4) else d.pfaint()
    check_call(d, "m.log", [t, "int"], "double", [x, b], lambda x, b: logb(float(x), b))


def assoc_case(d):
    """metamorphic: x == (x // y) * y + (x %% y), and % agrees with %% modulo y, as composed expressions"""
    from engines import libcall
    t = d.choice(["int", "long"])
    x, y = gen_num(d, t), gen_num(d, t)
    d.note((t, x, y))
    d.sut()
    if y == 0 or (x == (IMIN if t == "int" else LMIN) and y == -1):
        return
    q = libcall("//", [t, t], t)(x, y)
    r = libcall("%%", [t, t], t)(x, y)
    m = libcall("%", [t, t], t)(x, y)
    if q[0] != "ok" or r[0] != "ok" or m[0] != "ok":
        raise Violation("%s//%s, %%%%, %%: %s %s %s" % (x, y, q, r, m))
    if q[1] * y + r[1] != x:
        raise Violation("(%s // %s) * %s + %s %%%% %s = %s" % (x, y, y, x, y, q[1] * y + r[1]))
    if (m[1] - r[1]) % y != 0 or not (0 <= m[1] < y or y < m[1] <= 0):
        raise Violation("%s %% %s = %s" % (x, y, m[1]))
    d.nontrivial(repr((t, x, y)))


SUBS = [
    mixed("+", plus, 600), mixed("-", minus, 600), mixed("*", times, 600),
    two_double("/", divide, divgen, 400),
    mixed("//", floordiv, 500, ["int", "long"]),
    mixed("u-", neg, 300, arity=1),
    mixed("%", mod, 500), mixed("%%", rem, 500),
    Sub("divmod-law", assoc_case, 400), Sub("**", pow_case, 600),
    bits("&", lambda x, y: x & y), bits("|", lambda x, y: x | y), bits("^", lambda x, y: x ^ y), bits("~", lambda x: -x - 1),
    const("m.pi", 3.141592653589793), const("m.e", 2.718281828459045),
    mixed("m.abs", abs_, 300, arity=1),
    one("m.acos", dom(math.acos, lambda x: -1 <= x <= 1), unitish),
    one("m.asin", dom(math.asin, lambda x: -1 <= x <= 1), unitish),
    one("m.atan", dom(math.atan)),
    two_double("m.atan2", atan2, gen_num),
    one("m.ceil", ceil, halfy), one("m.floor", floor, halfy), one("m.rint", rint, halfy),
    mixed("m.copysign", copysign, 400, gen=copygen),
    one("m.cos", dom(math.cos, lambda x: not math.isinf(x)), angle),
    one("m.sin", dom(math.sin, lambda x: not math.isinf(x)), angle),
    one("m.tan", dom(math.tan, lambda x: not math.isinf(x)), angle, rel=1e-7),
    one("m.cosh", dom(cosh)), one("m.sinh", dom(sinh), abs_=1e-300), one("m.tanh", dom(math.tanh)),
    one("m.exp", dom(safe_exp), abs_=0), one("m.expm1", dom(lambda x: safe_exp(x) - 1)),
    two_double("m.hypot", hypot, gen_num),
    one("m.ln", ln), one("m.log10", log10), one("m.ln1p", ln1p),
    Sub("m.log", log_case, 500),
    Sub("m.round", round_case, 500), Sub("m.signum", signum_case, 300),
    one("m.sqrt", dom(math.sqrt, lambda x: x >= 0)),
]
