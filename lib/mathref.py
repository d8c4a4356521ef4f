"""Reference special functions (prefactors in 36-digit decimal arithmetic, sums of positive terms in doubles), by methods that share nothing with titus/lib/spec.py."""
import decimal
from decimal import Decimal as D
from fractions import Fraction as F

CTX = decimal.Context(prec=36, Emax=999999, Emin=-999999, rounding=decimal.ROUND_HALF_EVEN)
decimal.setcontext(CTX)
PI = D("3.14159265358979323846264338327950288419716939937510582097494459")


def bernoulli(n):
    b = [F(0)] * (n + 1)
    a = [F(0)] * (n + 1)
    for m in range(n + 1):
        a[m] = F(1, m + 1)
        for j in range(m, 0, -1):
            a[j - 1] = j * (a[j - 1] - a[j])
        b[m] = a[0]
    return b


_B = bernoulli(42)
_ST = [D(_B[2 * k].numerator) / D(_B[2 * k].denominator) / D(2 * k * (2 * k - 1)) for k in range(1, 17)]
_HL2PI = (2 * PI).ln() / 2


def lgamma(x):
    """log Gamma(x), x > 0 (shift above 40, then Stirling)"""
    x = D(x)
    shift = D(1)
    while x < 24:
        shift *= x
        x += 1
    s = (x - D("0.5")) * x.ln() - x + _HL2PI
    x2 = x * x
    p = x
    for c in _ST:
        s += c / p
        p *= x2
    return s - shift.ln()


def lbeta(a, b):
    return lgamma(a) + lgamma(b) - lgamma(D(a) + D(b))


def _pre(logv):
    """exp of a Decimal as a float (0 or inf out of range)"""
    if logv < -750:
        return 0.0
    return float(logv.exp()) if logv < 710 else float("inf")


def gammap(a, x):
    """regularized lower incomplete gamma P(a, x): series of positive terms"""
    if x <= 0:
        return 0.0
    if x > a + 40 + 12 * a ** 0.5:
        return 1 - _gammaq_tail(a, x)
    t = s = 1.0
    n = 0
    while True:
        n += 1
        t = t * x / (a + n)
        s += t
        if t < s * 1e-18 and n > x - a:
            break
    da, dx = D(a), D(x)
    return _pre(da * dx.ln() - dx - lgamma(da + 1)) * s


def _gammaq_tail(a, x):
    """upper tail for x far above a: continued fraction (modified Lentz)"""
    tiny = 1e-280
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 3000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if d == 0 else d
        c = b + an / c
        c = tiny if c == 0 else c
        d = 1 / d
        e = d * c
        h *= e
        if abs(e - 1) < 1e-16:
            break
    da, dx = D(a), D(x)
    return _pre(da * dx.ln() - dx - lgamma(da)) * h


def gammaq(a, x):
    if x <= 0:
        return 1.0
    if x > a + 1:
        return _gammaq_tail(a, x)
    return 1 - gammap(a, x)


def erf(x):
    if x < 0:
        return -erf(-x)
    return gammap(0.5, x * x) if x < 1e100 else 1.0


def erfc(x):
    if x < 0:
        return 1 + erf(-x)
    return gammaq(0.5, x * x) if x < 1e100 else 0.0


def phi(z):
    """standard normal cumulative"""
    return erfc(-z / 2 ** 0.5) / 2


def betai(a, b, x, y=None):
    """regularized incomplete beta I_x(a, b); y = 1 - x if known more exactly"""
    y = 1.0 - x if y is None else y
    if x <= 0:
        return 0.0
    if y <= 0:
        return 1.0
    if x > (a + 1) / (a + b + 2):
        return 1 - _betai(b, a, y, x)
    return _betai(a, b, x, y)


def _betai(a, b, x, y):
    t = s = 1.0
    n = 0
    while True:
        t = t * (a + b + n) / (a + 1 + n) * x
        s += t
        n += 1
        if t < s * 1e-18 * y and (a + b + n) * x < a + 1 + n:
            break
    da, db = D(a), D(b)
    return _pre(da * D(x).ln() + db * D(y).ln() - lbeta(da, db) - da.ln()) * s


def lchoose(n, k):
    return lgamma(D(n) + 1) - lgamma(D(k) + 1) - lgamma(D(n) - D(k) + 1)


