"""C31: probability distributions against independently computed densities, cumulatives and quantile consistency."""
import math

import mathref as M
from pbt import Violation, close, show
from runner import Sub
from engines import Err, build, check_call, compare_outcomes, libcall, outcome
from libfn import V, fnsub

RULE = ("one generated call per case; parameters over several orders of magnitude including the degenerate and invalid ones, points around the bulk, in both "
        "tails, on the edges of the support and outside it, probabilities down to 1e-12 from either end; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["densities agree with the formula to 1e-7 relative, cumulatives to 1e-6 absolute, and a quantile is right if the exact cumulative at it is within "
               "1e-6 of the probability (discrete: smallest point whose cumulative reaches the probability, either neighbour when it is within 1e-6 of a step)",
               "parameters of the incomplete beta and gamma based distributions stay below 2000",
               "weibullPDF at 0 with shape below 1 is not-a-number and fPDF at 0 is 0, as the code states",
               "hypergeometric distributions with no black balls are refused, as the code states"]
FACTOR = {"quick": 3, "thorough": 8}
D, I = "double", "int"
INF, NAN = float("inf"), float("nan")
REC = {"type": "record", "name": "GP", "fields": [{"name": "mean", "type": "double"}, {"name": "variance", "type": "double"}]}


# ---- generators
def pos(d, lo=-3.0, hi=3.0):
    c = d.below(5)
    if c == 0:
        return float(d.int(1, 20))
    if c == 1:
        return d.int(1, 40) / 2.0
    if c == 2:
        return d.int(1, 500) / 100.0
    return 10.0 ** (lo + (hi - lo) * d.unit())


def real(d):
    c = d.below(4)
    if c == 0:
        return float(d.int(-10, 10))
    if c == 1:
        return d.int(-1000, 1000) / 100.0
    return (1 if d.bool() else -1) * 10.0 ** (-3 + 6 * d.unit())


def prob(d):
    c = d.below(10)
    if c <= 4:
        return d.int(1, 99) / 100.0
    if c == 5:
        return 10.0 ** -(12 * d.unit())
    if c == 6:
        return 1 - 10.0 ** -(15.9 * d.unit())
    if c == 7:
        return d.choice([0.5, 0.25, 0.75, 0.125, 1e-5, 0.999, 1e-300, 5e-324, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 2.0 ** -60])
    return min(max(d.unit(), 1e-9), 1 - 1e-9)


def bad(d, x):
    return d.choice([INF, -INF, NAN])


# ---- references: pdf(x, *p), cdf(x, *p)
def dexp(x):
    return 0.0 if x < -745 else (math.exp(x) if x < 709 else INF)


def lexp(v):
    """exp of a Decimal, as a float"""
    return 0.0 if v < -760 else (float(v.exp()) if v < 710 else INF)


T = M.D


def ln(x):
    return T(x).ln()


def gauss_ll(x, mu, s):
    z = (T(x) - T(mu)) / T(s)
    return float(-z * z / 2 - ln(s) - (2 * M.PI).ln() / 2)


def gauss_cdf(x, mu, s):
    return M.phi((x - mu) / s)


def exp_pdf(x, r):
    return 0.0 if x < 0 else r * dexp(-r * x)


def exp_cdf(x, r):
    return 0.0 if x <= 0 else -math.expm1(-r * x)


def gamma_pdf(x, a, b):
    if x < 0:
        return 0.0
    if x == 0:
        return INF if a < 1 else (1.0 / b if a == 1 else 0.0)
    return lexp((T(a) - 1) * (T(x) / T(b)).ln() - ln(b) - T(x) / T(b) - M.lgamma(a))


def gamma_cdf(x, a, b):
    return 0.0 if x <= 0 else M.gammap(a, x / b)


def chi2_pdf(x, k):
    return 0.0 if x <= 0 else gamma_pdf(x, k / 2.0, 2.0)       # at 0: as the code states


def beta_pdf(x, a, b):
    if x <= 0 or x >= 1:
        return 0.0
    return lexp((T(a) - 1) * ln(x) + (T(b) - 1) * (1 - T(x)).ln() - M.lbeta(a, b))


def beta_cdf(x, a, b):
    return 0.0 if x <= 0 else (1.0 if x >= 1 else M.betai(a, b, x, float(1 - T(x))))


def cauchy_pdf(x, m, s):
    z = (T(x) - T(m)) / T(s)
    return float(1 / (M.PI * T(s) * (1 + z * z)))


def cauchy_cdf(x, m, s):
    z = (x - m) / s
    return 0.5 + math.atan(z) / math.pi if z > -1 else math.atan(-1 / z) / math.pi


def f_pdf(x, a, b):
    if x <= 0:
        return 0.0
    a, b, x = T(a), T(b), T(x)
    return lexp(a / 2 * (a / b).ln() + (a / 2 - 1) * x.ln() - (a + b) / 2 * (1 + a * x / b).ln() - M.lbeta(a / 2, b / 2))


def f_cdf(x, a, b):
    if x <= 0:
        return 0.0
    den = T(a) * T(x) + b
    return M.betai(a / 2.0, b / 2.0, float(T(a) * T(x) / den), float(T(b) / den))


def lognormal_pdf(x, m, s):
    if x <= 0:
        return 0.0
    z = (ln(x) - T(m)) / T(s)
    return lexp(-z * z / 2 - ln(s) - (2 * M.PI).ln() / 2 - ln(x))


def lognormal_cdf(x, m, s):
    return 0.0 if x <= 0 else M.phi(float((ln(x) - T(m)) / T(s)))


def t_pdf(x, k):
    k, x = T(k), T(x)
    return lexp(-(k + 1) / 2 * (1 + x * x / k).ln() - k.ln() / 2 - M.lbeta(T("0.5"), k / 2))


def t_cdf(x, k):
    u = T(x) * T(x)
    tail = 0.5 * M.betai(k / 2.0, 0.5, float(k / (k + u)), float(u / (k + u)))
    return tail if x < 0 else 1 - tail


def uniform_pdf(x, a, b):
    return 0.0 if x < a or x > b else 1.0 / (b - a)


def uniform_cdf(x, a, b):
    return 0.0 if x < a else (1.0 if x > b else (x - a) / (b - a))


def weibull_pdf(x, a, b):
    if x < 0:
        return 0.0
    if x == 0:
        return NAN if a < 1 else (1.0 / b if a == 1 else 0.0)
    z = (T(x) / T(b)).ln()
    h = T(a) * z
    if h > 20:
        return 0.0
    return lexp(ln(a) - ln(b) + (T(a) - 1) * z - h.exp())


def weibull_cdf(x, a, b):
    if x <= 0:
        return 0.0
    h = T(a) * (T(x) / T(b)).ln()
    return 1.0 if h > 20 else -math.expm1(-float(h.exp()))


def poisson_pdf(x, l):
    return 0.0 if x < 0 else lexp(x * ln(l) - T(l) - M.lgamma(x + 1))


def poisson_cdf(x, l):
    return 0.0 if x < 0 else M.gammaq(math.floor(x) + 1.0, l)


def xlog(k, v):
    """k ln v with 0 ln 0 = 0; None for minus infinity"""
    if k == 0:
        return T(0)
    return None if v == 0 else k * T(v).ln()


def binom_pdf(x, n, p):
    if x < 0 or x > n:
        return 0.0
    u, v = xlog(x, T(p)), xlog(n - x, 1 - T(p))
    return 0.0 if u is None or v is None else lexp(M.lchoose(n, x) + u + v)


def binom_cdf(x, n, p):
    if x < 0:
        return 0.0
    x = math.floor(x)
    if x >= n or p == 0:
        return 1.0
    if p == 1:
        return 0.0
    return M.betai(n - x, x + 1.0, float(1 - T(p)), p)


def geom_pdf(x, p):
    if x < 0:
        return 0.0
    v = xlog(x, 1 - T(p))
    return 0.0 if v is None else lexp(ln(p) + v)


def geom_cdf(x, p):
    if x < 0:
        return 0.0
    v = xlog(int(math.floor(x)) + 1, 1 - T(p))
    return 1.0 if v is None else 1 - lexp(v)


def hyper_pdf(x, m, n, k):
    if x < 0 or x > m or k - x < 0 or k - x > n:
        return 0.0
    return lexp(M.lchoose(m, x) + M.lchoose(n, k - x) - M.lchoose(m + n, k))


def hyper_cdf(x, m, n, k):
    return math.fsum(hyper_pdf(i, m, n, k) for i in range(0, min(int(math.floor(x)), m, k) + 1))


def nb_pdf(x, n, p):
    if x < 0:
        return 0.0
    if n == 0:
        return 1.0 if x == 0 else 0.0
    v = xlog(x, 1 - T(p))
    return 0.0 if v is None else lexp(M.lgamma(n + x) - M.lgamma(n) - M.lgamma(x + 1) + v + n * ln(p))


def nb_cdf(x, n, p):
    if x < 0:
        return 0.0
    return 1.0 if n == 0 else M.betai(float(n), math.floor(x) + 1.0, p, float(1 - T(p)))


# ---- the distributions
class Dist(object):
    def __init__(self, name, codes, types, xtype, good, invalid, pdf, cdf, typical, lower=-INF, upper=INF, disc=False, deg=None, pdfname=None, maxx=1e200):
        self.name, self.codes, self.types, self.xtype = name, codes, types, xtype
        self.good, self.invalid, self.pdf, self.cdf, self.typical = good, invalid, pdf, cdf, typical
        self.lower, self.upper, self.disc, self.deg = lower, upper, disc, deg
        self.pdfname = pdfname or "prob.dist.%sPDF" % name
        self.maxx = maxx


def point(d, s, p):
    """a point where the distribution lives, or off it"""
    lo, mid, scale = s.typical(*p)
    c = d.below(12)
    if c <= 6:
        x = mid + scale * (d.int(-400, 400) / 100.0)
    elif c == 7:
        x = mid + scale * d.int(-30, 30)
    elif c == 8:
        x = lo + d.choice([0.0, 0.0, -1.0, 1.0, 1e-3, -1e-3]) * (scale or 1.0)
    elif c == 9:
        x = lo + (mid - lo) * d.unit()
    elif c == 10:
        x = d.choice([0.0, 1.0, -1.0, 0.5, 2.0, -20.0, 1e3])
    else:
        x = mid + scale * 10.0 ** d.int(1, 6 if d.chance(2, 3) else 200) * (1 if d.bool() else -1)
    x = max(-s.maxx, min(s.maxx, x))
    return float(round(x)) if s.disc and d.chance(2, 3) else float(x)


def badx(d, s):
    return d.choice([INF, -INF, NAN])


def args_for(d, s, xtype, usebad=True):
    """(params, kind) kind in ok/badparam"""
    if usebad and d.chance(1, 8):
        return s.invalid(d), "badparam"
    return s.good(d), "ok"


def pdf_case(s):
    def case(d):
        p, kind = args_for(d, s, s.xtype)
        pt = D if s.name not in ("poisson", "binomial", "geometric", "hypergeometric", "negativeBinomial") else I
        if kind == "ok":
            x = point(d, s, p)
            x = int(round(x)) if pt == I else x
            if pt == D and d.chance(1, 20):
                x = badx(d, s)
        else:
            x = d.choice([0, 1, 3]) if pt == I else d.choice([0.0, 1.0, 2.5])
        code = s.codes[0]

        def ref(x, *q):
            if kind != "ok":
                raise Err(code)
            if isinstance(x, float) and (x != x or abs(x) == INF):
                raise Err(code + 1)
            if s.deg is not None:
                v = s.deg("pdf", x, *q)
                if v is not None:
                    return v
            return s.pdf(x, *q)
        rel = 1e-7
        check_call(d, s.pdfname, [pt] + s.types, D, [x] + p, ref, rel=rel, abs_=1e-290 if "LL" not in s.pdfname else 1e-12)
    return case


def cdf_case(s):
    def case(d):
        p, kind = args_for(d, s, s.xtype)
        ct = I if s.name in ("poisson", "hypergeometric") else D
        if kind == "ok":
            x = point(d, s, p)
            x = int(round(x)) if ct == I else x
            if ct == D and d.chance(1, 20):
                x = badx(d, s)
        else:
            x = d.choice([0, 1, 3]) if ct == I else d.choice([0.0, 1.0, 2.5])
        code = s.codes[1]

        def ref(x, *q):
            if kind != "ok":
                raise Err(code)
            if isinstance(x, float) and (x != x or abs(x) == INF):
                raise Err(code + 1)
            if s.deg is not None:
                v = s.deg("cdf", x, *q)
                if v is not None:
                    return v
            return s.cdf(x, *q)
        key = "hypergeometricCDF-beyond" if s.name == "hypergeometric" and kind == "ok" and x > p[0] else None
        check_call(d, "prob.dist.%sCDF" % s.name, [ct] + s.types, D, [x] + p, ref, rel=1e-9, abs_=1e-6, key=key)
    return case


def qf_case(s):
    fn = "prob.dist.%sQF" % s.name

    def case(d):
        p, kind = args_for(d, s, s.xtype)
        c = d.below(16)
        u = prob(d)
        if c == 0:
            u = d.choice([0.0, 1.0])
        if c == 1:
            u = d.choice([-0.5, 1.5, NAN, INF, -1e-9, 1.0000001])
        d.note({"fcn": fn, "params": [D] + s.types, "args": [u] + p})
        d.sut()
        d.nontrivial(repr((fn, u, p)))
        got = libcall(fn, [D] + s.types, D)(u, *p)
        code = s.codes[2]
        if kind != "ok" or not (0 <= u <= 1):
            want = ("err", code if kind != "ok" else code + 1)
            if got != want:
                raise Violation("%s%s: got %s, expected error %s" % (fn, show([u] + p), show(got), want[1]))
            return
        if got[0] != "ok":
            raise Violation("%s%s: got %s, expected a quantile" % (fn, show([u] + p), show(got)))
        x = got[1]
        if s.deg is not None:
            v = s.deg("qf", u, *p)
            if v is not None:
                if not close(x, v):
                    raise Violation("%s%s: got %s, expected %s" % (fn, show([u] + p), show(x), show(v)))
                return
        lo, hi = s.lower, s.upper
        if callable(lo):
            lo = lo(*p)
        if callable(hi):
            hi = hi(*p)
        if u in (0.0, 1.0):
            want = lo if u == 0.0 else hi
            if not close(x, want):
                raise Violation("%s%s: got %s, expected %s" % (fn, show([u] + p), show(x), show(want)))
            return
        if x != x or x < lo or x > hi:
            raise Violation("%s%s = %s is outside of the support [%s, %s]" % (fn, show([u] + p), show(x), lo, hi))
        tol = 1e-6
        if not s.disc:
            if abs(x) == INF:
                if s.cdf(math.copysign(1e300, x), *p) < u - tol or x < 0:
                    raise Violation("%s%s is infinite" % (fn, show([u] + p)))
                return
            e = 4 * abs(x) * 2.0 ** -52 + 1e-300
            a, b = s.cdf(x - e, *p), s.cdf(x + e, *p)
            if not (a - tol <= u <= b + tol):
                raise Violation("%s%s = %s, but the cumulative there is %s" % (fn, show([u] + p), show(x), show(s.cdf(x, *p))))
            return
        if x != math.floor(x):
            raise Violation("%s%s = %s is not an integer" % (fn, show([u] + p), show(x)))
        if s.cdf(x, *p) < u - tol or (x > lo and s.cdf(x - 1, *p) > u + tol):
            raise Violation("%s%s = %s, but the cumulative is %s there and %s one before" % (fn, show([u] + p), show(x), s.cdf(x, *p), s.cdf(x - 1, *p)))
    return case


def maybe_zero(d, v):
    return 0.0 if d.chance(1, 14) else v


def inv2(f1, f2):
    """one of two parameters invalid"""
    def gen(d):
        return f1(d) if d.bool() else f2(d)
    return gen


def nonfin(d):
    return d.choice([INF, -INF, NAN])


def neg(d):
    return nonfin(d) if d.chance(1, 3) else -pos(d)


def nonpos(d):
    return 0.0 if d.chance(1, 3) else neg(d)


def badprob(d):
    return d.choice([-0.1, 1.1, INF, -INF, NAN, 2.0, -3.0])


def gauss_deg(kind, x, mu, s):
    if kind == "qf" and x in (0.0, 1.0):
        return -INF if x == 0 else INF
    if s != 0:
        return None
    if kind == "pdf":
        return INF if x == mu else -INF
    if kind == "cdf":
        return 0.0 if x < mu else 1.0
    return mu


def exp_deg(kind, x, r):
    if r != 0:
        return None
    return 0.0 if kind != "qf" or x == 0 else INF


def chi2_deg(kind, x, k):
    if kind == "qf" and k == 0:
        return INF if x == 1 else 0.0
    if k != 0:
        return None
    if kind == "pdf":
        return INF if x == 0 else 0.0
    return 1.0 if x > 0 else 0.0


def poisson_deg(kind, x, l):
    if l != 0:
        return None
    if kind == "pdf":
        return 1.0 if x == 0 else 0.0
    return 0.0 if kind == "qf" else (1.0 if x >= 0 else 0.0)


def gamma_deg(kind, x, a, b):
    if a != 0 and b != 0:
        return None
    if kind == "pdf":
        return INF if x == 0 else 0.0
    if kind == "cdf":
        return 1.0 if x != 0 else 0.0                  # as the code states


def nb_deg(kind, x, n, p):
    if n == 0:
        if kind == "qf":
            return 0.0
        return 1.0 if x == 0 else 0.0                  # as the code states
    if p == 1.0 and kind == "qf" and x not in (0.0, 1.0):
        return 0.0


def binq_deg(kind, x, n, p):
    if kind == "qf" and x not in (0.0, 1.0) and p in (0.0, 1.0):
        return 0.0 if p == 0 else float(n)


def ints(d, lo, hi):
    c = d.below(3)
    return d.int(lo, min(hi, 12)) if c < 2 else d.int(lo, hi)


def shape(d):
    return min(pos(d, -1.0, 2.7), 500.0)


def hyp_good(d):
    m, n = ints(d, 0, 60), ints(d, 1, 60)
    return [m, n, d.int(0, m + n)]


def hyp_invalid(d):
    m, n = d.int(0, 9), d.int(1, 9)
    return d.choice([[-1 - m, n, 0], [m, -n, 0], [m, n, -1], [m, n, m + n + 1 + d.below(3)], [m, 0, 0]])


DISTS = [
    Dist("gaussian", (13000, 13010, 13020), [D, D], D, lambda d: [real(d), maybe_zero(d, pos(d))],
         inv2(lambda d: [nonfin(d), 1.0], lambda d: [0.0, neg(d)]), gauss_ll, gauss_cdf, lambda m, s: (m, m, s), deg=gauss_deg, pdfname="prob.dist.gaussianLL"),
    Dist("exponential", (13030, 13040, 13050), [D], D, lambda d: [maybe_zero(d, pos(d))], lambda d: [neg(d)], exp_pdf, exp_cdf,
         lambda r: (0.0, 1.0 / (r or 1.0), 1.0 / (r or 1.0)), lower=0.0, deg=exp_deg),
    Dist("chi2", (13060, 13070, 13080), [I], D, lambda d: [d.choice([0, 1, 2]) if d.chance(1, 3) else ints(d, 1, 600)], lambda d: [-d.int(1, 9)],
         chi2_pdf, lambda x, k: gamma_cdf(x, k / 2.0, 2.0), lambda k: (0.0, float(k), math.sqrt(2.0 * k)), lower=0.0, deg=chi2_deg),
    Dist("poisson", (13090, 13100, 13110), [D], I, lambda d: [maybe_zero(d, pos(d, -3.0, 2.6))], lambda d: [neg(d)], poisson_pdf, poisson_cdf,
         lambda l: (0.0, l, math.sqrt(l)), lower=0.0, disc=True, deg=poisson_deg, maxx=2000.0),
    Dist("gamma", (13120, 13130, 13140), [D, D], D, lambda d: [shape(d), pos(d)],
         inv2(lambda d: [neg(d), 1.0], lambda d: [1.0, neg(d)]), gamma_pdf, gamma_cdf, lambda a, b: (0.0, a * b, math.sqrt(a) * b), lower=0.0),
    Dist("beta", (13150, 13160, 13170), [D, D], D, lambda d: [shape(d), shape(d)],
         inv2(lambda d: [nonpos(d), 1.0], lambda d: [1.0, nonpos(d)]), beta_pdf, beta_cdf,
         lambda a, b: (0.0, a / (a + b), math.sqrt(a * b / (a + b + 1)) / (a + b)), lower=0.0, upper=1.0),
    Dist("cauchy", (13180, 13190, 13200), [D, D], D, lambda d: [real(d), pos(d)],
         inv2(lambda d: [nonfin(d), 1.0], lambda d: [1.0, nonpos(d)]), cauchy_pdf, cauchy_cdf, lambda m, s: (m, m, s)),
    Dist("f", (13210, 13220, 13230), [I, I], D, lambda d: [ints(d, 1, 400), ints(d, 1, 400)],
         inv2(lambda d: [-d.below(4), 3], lambda d: [3, -d.below(4)]), f_pdf, f_cdf, lambda a, b: (0.0, 1.0, math.sqrt(2.0 / a + 2.0 / b)), lower=0.0),
    Dist("lognormal", (13240, 13250, 13260), [D, D], D, lambda d: [d.int(-4000, 4000) / 100.0 if d.bool() else d.int(-3, 3) * 1.0, pos(d, -3.0, 1.0)],
         inv2(lambda d: [nonfin(d), 1.0], lambda d: [1.0, nonpos(d)]), lognormal_pdf, lognormal_cdf,
         lambda m, s: (0.0, math.exp(m), math.exp(m) * min(s, 3.0)), lower=0.0, maxx=1e300),
    Dist("t", (13270, 13280, 13290), [I], D, lambda d: [ints(d, 1, 600)], lambda d: [-d.below(5)], t_pdf, t_cdf, lambda k: (0.0, 0.0, 1.0)),
    Dist("binomial", (13300, 13310, 13320), [I, D], I, lambda d: [ints(d, 1, 800), d.choice([0.0, 1.0]) if d.chance(1, 10) else prob(d)],
         inv2(lambda d: [-d.below(4), 0.5], lambda d: [5, badprob(d)]), binom_pdf, binom_cdf,
         lambda n, p: (0.0, n * p, math.sqrt(n * p * (1 - p)) + 1), lower=0.0, upper=lambda n, p: float(n), disc=True, deg=binq_deg),
    Dist("uniform", (13330, 13340, 13350), [D, D], D, lambda d: (lambda a: [a, a + pos(d)])(real(d)),
         lambda d: d.choice([[nonfin(d), 1.0], [0.0, nonfin(d)], [1.0, 1.0], [2.0, -1.0]]), uniform_pdf, uniform_cdf,
         lambda a, b: (a, (a + b) / 2, (b - a) / 2), lower=lambda a, b: a, upper=lambda a, b: b),
    Dist("geometric", (13360, 13370, 13380), [D], I, lambda d: [1.0 if d.chance(1, 10) else max(prob(d), 1e-7)],
         lambda d: [0.0 if d.bool() else badprob(d)], geom_pdf, geom_cdf, lambda p: (0.0, 1 / p - 1, 1 / p), lower=0.0, disc=True),
    Dist("hypergeometric", (13390, 13400, 13410), [I, I, I], I, hyp_good, hyp_invalid, hyper_pdf, hyper_cdf,
         lambda m, n, k: (max(0, k - n), k * m / float(m + n), math.sqrt(k) + 1), lower=lambda m, n, k: float(max(0, k - n)),
         upper=lambda m, n, k: float(min(m, k)), disc=True),
    Dist("weibull", (13420, 13430, 13440), [D, D], D, lambda d: [pos(d, -1.0, 1.5), pos(d)],
         inv2(lambda d: [nonpos(d), 1.0], lambda d: [1.0, nonpos(d)]), weibull_pdf, weibull_cdf, lambda a, b: (0.0, b, b / a), lower=0.0),
    Dist("negativeBinomial", (13450, 13460, 13470), [I, D], I, lambda d: [ints(d, 0, 60), 1.0 if d.chance(1, 10) else max(prob(d), 0.02)],
         inv2(lambda d: [-d.int(1, 5), 0.5], lambda d: [5, 0.0 if d.chance(1, 4) else badprob(d)]), nb_pdf, nb_cdf,
         lambda n, p: (0.0, n * (1 - p) / p, math.sqrt(n * (1 - p)) / p + 1), lower=0.0, disc=True, deg=nb_deg, maxx=8000.0),
]


def gaussrec(which):
    def case(d):
        s = DISTS[0]
        mu, var = (real(d), maybe_zero(d, pos(d)))
        okp = True
        if d.chance(1, 6):
            okp = False
            if d.bool():
                mu = nonfin(d)
            else:
                var = neg(d)
        x = prob(d) if which == "QF" else point(d, s, [mu, math.sqrt(var)]) if okp else 1.0
        base = {"LL": 13000, "CDF": 13010, "QF": 13020}[which]
        code = s.codes

        def ref(x, r):
            if not okp:
                raise Err(base)
            sg = math.sqrt(r["variance"])
            v = gauss_deg({"LL": "pdf", "CDF": "cdf", "QF": "qf"}[which], x, r["mean"], sg)
            if v is not None:
                return v
            if which == "LL":
                return gauss_ll(x, r["mean"], sg)
            if which == "CDF":
                return gauss_cdf(x, r["mean"], sg)
            return libcall("prob.dist.gaussianQF", [D, D, D], D)(x, r["mean"], sg)[1]          # both forms of the same function
        check_call(d, "prob.dist.gaussian" + which, [D, REC], D, [x, {"mean": mu, "variance": var}], ref, rel=1e-9, abs_=1e-6 if which == "CDF" else 1e-9)
    return case


def gammazero(which):
    """degenerate gamma distributions"""
    def case(d):
        s = DISTS[4]
        p = [0.0, pos(d)] if d.bool() else [pos(d), 0.0]
        if which == "QF":
            raise_ = lambda *a: (_ for _ in ()).throw(Err(13140))
            check_call(d, "prob.dist.gammaQF", [D, D, D], D, [prob(d)] + p, raise_)
            return
        x = d.choice([0.0, 1.0, 2.5, 1e-9])
        check_call(d, "prob.dist.gamma" + which, [D, D, D], D, [x] + p, lambda x, a, b: gamma_deg(which.lower(), x, a, b))
    return case


SUBS = []
for s in DISTS:
    SUBS.append(Sub(s.pdfname, pdf_case(s), 260, 6000))
    SUBS.append(Sub("prob.dist.%sCDF" % s.name, cdf_case(s), 260, 6000))
    SUBS.append(Sub("prob.dist.%sQF" % s.name, qf_case(s), 220, 5000))
for w in ("LL", "CDF", "QF"):
    SUBS.append(Sub("prob.dist.gaussian%s(record)" % w, gaussrec(w), 150, 3000))
for w in ("PDF", "CDF", "QF"):
    SUBS.append(Sub("prob.dist.gamma%s(degenerate)" % w, gammazero(w), 60, 600))


def probe_hyper():
    return libcall("prob.dist.hypergeometricCDF", [I, I, I, I], D)(11, 10, 5, 3) == ("ok", 0.0)


PROBES = {"hypergeometricCDF-beyond": probe_hyper}
