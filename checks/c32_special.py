"""C32: special functions against exact combinatorics and high-precision references."""
import math
from fractions import Fraction as F

import mathref as M
from pbt import Violation, close
from runner import Sub
from engines import Err, check_call
from libfn import V, fnsub

RULE = ("one generated call per case; arguments over the whole domain (tiny, huge, integers, half-integers, near poles and zeros, non-finite) and outside it; "
        "distinct = distinct (function, arguments)")
ASSUMPTIONS = ["nChooseK(n, n) is outside the documented domain (k < n); a negative n with k = 0 is not specified",
               "lnGamma of infinity is not-a-number, as the code states; NaN arguments give NaN",
               "references are computed with 36-digit decimals; results must agree to about 1e-13 relative (or to rounding of the largest intermediate term)"]
FACTOR = {"quick": 1, "thorough": 6}
D, I = "double", "int"
INF, NAN = float("inf"), float("nan")


def err(code):
    raise Err(code)


def choose(n, k):
    r = F(1)
    for i in range(1, min(k, n - k) + 1):
        r = r * (n - i + 1) / i
        if r > 2**80:
            return 2**80
    return int(r)


def nck_ref(n, k):
    if n < 0 or k < 0 or k >= n:
        raise Err(36000)
    c = choose(n, k)
    return c if c <= 2147483647 else err(36000)


def nck_gen(d):
    c = d.below(8)
    if c <= 2:
        n = d.int(0, 36)
        return [n, d.int(-1, n + 2)]
    if c == 3:
        n = d.pfaint()
        return [n, d.int(-2, 4) if n >= 0 else d.int(1, 5)]
    if c == 4:
        n = abs(d.pfaint()) % 2**31
        return [n, max(n - d.int(-2, 4), 0)]
    if c == 5:
        n = d.int(30, 400)
        return [n, d.int(0, n)]
    if c == 6:                                     # near the edge of the range of an int
        k = d.int(1, 12)
        n = k + 1
        while choose(n, k) < 2**31:
            n += max(1, n // 50)
        while choose(n, k) >= 2**31:
            n -= 1
        return [n + d.int(-1, 2), k]
    n, k = d.pfaint(), d.pfaint()
    return [n, k if n >= 0 or k != 0 else 1]


def posarg(d):
    c = d.below(10)
    if c <= 2:
        return float(d.int(1, 30))
    if c == 3:
        return d.int(1, 60) / 2.0
    if c == 4:
        return 10.0 ** (d.int(-3000, 3000) / 1000.0)
    if c == 5:
        return d.choice([1.0, 2.0]) + d.smallint(1000) * 10.0 ** -d.int(4, 12)
    if c == 6:
        return d.choice([1e-300, 1e-20, 1e-8, 1e10, 1e15, 1e100, 1e300, 0.5, 1.4616321449683622])
    return d.int(1, 10**6) / 10.0 ** d.int(2, 6)


def anyarg(d):
    c = d.below(10)
    if c < 7:
        return posarg(d)
    if c < 9:
        return -posarg(d) if d.bool() else 0.0
    return d.choice([INF, -INF, NAN, -0.0])


def lngamma_ref(x):
    if x != x or x == INF:
        return NAN
    if x <= 0:
        raise Err(36050)
    return float(M.lgamma(x)) if x < 1e300 else x * (math.log(x) - 1)


def lnbeta_gen(d):
    c = d.below(8)
    a = posarg(d)
    b = posarg(d)
    if c == 0:
        a = d.choice([0.0, -1.0, -0.5, -INF])
    if c == 1:
        b = d.choice([0.0, -2.0, -0.25, -INF])
    return [min(a, 1e14), min(b, 1e14)]


def lnbeta_eq(a, b):
    """within the rounding of the three log-gammas"""
    if a <= 0 or b <= 0:
        return None
    big = max(abs(float(M.lgamma(x))) for x in (a, b, a + b))
    return 1e-13 + 2e-15 * big


def lnbeta(d):
    a, b = lnbeta_gen(d)
    bad = a <= 0 or b <= 0
    ref = (lambda x, y: err(36010)) if bad else (lambda x, y: float(M.lbeta(x, y)))
    check_call(d, "m.special.lnBeta", [D, D], D, [a, b], ref, rel=1e-12, abs_=0.0 if bad else lnbeta_eq(a, b))
    if not bad:                                    # B(a, b) = B(b, a), from the code itself
        check_call(d, "m.special.lnBeta", [D, D], D, [b, a], ref, rel=1e-12, abs_=lnbeta_eq(a, b))


def erfarg(d):
    c = d.below(10)
    s = -1.0 if d.bool() else 1.0
    if c <= 4:
        return s * d.int(0, 7000) / 1000.0
    if c == 5:
        return s * d.int(0, 3000) / 100.0
    if c == 6:
        return s * 10.0 ** d.int(-300, 3)
    if c == 7:
        return s * d.int(2540, 2760) / 100.0
    if c == 8:
        return d.choice([INF, -INF, NAN, 0.0, -0.0, 1e300, -1e300])
    return s * d.int(0, 10**6) / 10.0 ** d.int(2, 9)


def erf_ref(x):
    if x != x:
        return x
    if abs(x) < 1e-5:
        return 2 / math.sqrt(math.pi) * x * (1 - x * x / 3)
    return float(M.erf(x))


def erfc_ref(x):
    if x != x:
        return x
    if abs(x) < 1e-5:
        return 1 - erf_ref(x)
    return float(M.erfc(x))


SUBS = [
    fnsub("m.special.nChooseK", V([I, I], I, nck_gen, nck_ref), 1500),
    fnsub("m.special.lnGamma", V([D], D, lambda d: [anyarg(d)], lngamma_ref, rel=2e-14, abs_=2e-15), 1200),
    Sub("m.special.lnBeta", lnbeta, 800, 20000),
    fnsub("m.special.erf", V([D], D, lambda d: [erfarg(d)], erf_ref, rel=1e-13, abs_=0.0), 1200),
    fnsub("m.special.erfc", V([D], D, lambda d: [erfarg(d)], erfc_ref, rel=2e-12, abs_=1e-315), 1200),
]
