"""C38: regression models and residual helpers."""
import math
from fractions import Fraction as F

import resid
from pbt import Violation, close, show
from runner import Sub
from engines import Err, check_call, refoutcome, compare_outcomes, libcall
from resid import D, I, AD, MD, AAD, MMD, INF, NAN, div, num, solve, elem

RULE = ("one generated model and datum per case; array and map forms of every shape with missing and extra keys, element types int/long/float/double, zero-size and misaligned models; "
        "distinct = distinct (function, arguments)")
ASSUMPTIONS = ["Gaussian-process regression follows the documented kriging: table inputs and outputs are normalized by their mean and (population) standard deviation, a constant trend is fitted by generalized "
               "least squares or given, and sigma enters as a relative nugget; tables whose inputs or outputs have zero spread have no normalization and are not generated",
               "kernel matrices are kept well conditioned so that results can be compared to 1e-6"]
FACTOR = {"quick": 2, "thorough": 8}


def model(d, fields):
    fs = d.shuffle([{"name": n, "type": t} for n, t in fields] + ([{"name": "mine", "type": "string"}] if d.bool() else []))
    return {"type": "record", "name": "Model", "fields": fs}, ({"mine": "m"} if any(f["name"] == "mine" for f in fs) else {})


def nums(d, k, e):
    return [d.finite(10) if e in (D, "float") and e == D else (float(d.smallint(20)) / 4 if e == "float" else d.smallint(20)) for _ in range(k)]


def arr(e):
    return {"type": "array", "items": e}


def mp(e):
    return {"type": "map", "values": e}


def tol(*lists):
    return 1e-9 * (1 + max([abs(x) for l in lists for x in l] or [0]) ** 2)


KEYS = ["a", "b", "c", "d", "", u"\u00e9"]


def some(d, keys):
    """the keys, sometimes with one missing or one more"""
    c = d.below(6)
    ks = list(keys)
    if c == 0 and ks:
        ks.remove(d.choice(ks))
    if c == 1:
        ks.append("extra")
    return d.shuffle(ks)


def linear(d):
    ed, ec, e0 = elem(d) if d.bool() else D, D, D
    k = d.int(0, 4)
    form = d.below(4)
    if form == 0:
        rec, extra = model(d, [("coeff", arr(ec)), ("const", e0)])
        kc = k if not d.chance(1, 5) else d.int(0, 5)
        x, c, b = nums(d, k, ed), nums(d, kc, ec), nums(d, 1, e0)[0]

        def ref(*a):
            if kc != k:
                raise Err(31000)
            return float(sum(F(p) * F(q) for p, q in zip(x, c)) + F(b))
        check_call(d, "model.reg.linear", [arr(ed), rec], D, [x, dict(extra, coeff=c, const=b)], ref, abs_=tol(x, c, [b]))
    elif form == 1:
        rec, extra = model(d, [("coeff", arr(arr(ec))), ("const", arr(e0))])
        n = d.int(0, 3)
        n0 = n if not d.chance(1, 6) else d.int(0, 4)
        x = nums(d, k, ed)
        c = [nums(d, k, ec) for _ in range(n)]
        if n and d.chance(1, 6):
            c[d.below(n)] = nums(d, d.int(0, 5), ec)
        b = nums(d, n0, e0)

        def ref(*a):
            if n0 != n:
                raise Err(31001)
            if any(len(r) != k for r in c):
                raise Err(31000)
            return [float(sum(F(p) * F(q) for p, q in zip(x, r)) + F(z)) for r, z in zip(c, b)]
        check_call(d, "model.reg.linear", [arr(ed), rec], AD, [x, dict(extra, coeff=c, const=b)], ref, abs_=tol(x, *c))
    elif form == 2:
        rec, extra = model(d, [("coeff", mp(ec)), ("const", e0)])
        base = d.sample(KEYS, k)
        ks, kc = some(d, base), some(d, base)
        x, c, b = dict(zip(ks, nums(d, len(ks), ed))), dict(zip(kc, nums(d, len(kc), ec))), nums(d, 1, e0)[0]
        check_call(d, "model.reg.linear", [mp(ed), rec], D, [x, dict(extra, coeff=c, const=b)],
                   lambda *a: float(sum(F(x[q]) * F(c[q]) for q in x if q in c) + F(b)), abs_=tol(x.values(), c.values()))
    else:
        rec, extra = model(d, [("coeff", mp(mp(ec))), ("const", mp(e0))])
        base, outs = d.sample(KEYS, k), d.sample(["y", "z", ""], d.int(0, 3))
        ks = some(d, base)
        x = dict(zip(ks, nums(d, len(ks), ed)))
        c = {}
        for o in some(d, outs):
            kc = some(d, base)
            c[o] = dict(zip(kc, nums(d, len(kc), ec)))
        b = {o: nums(d, 1, e0)[0] for o in some(d, outs)}

        def ref(*a):
            return {o: float(sum(F(x[q]) * F(c.get(o, {}).get(q, 0)) for q in x) + F(b.get(o, 0))) for o in set(b) | set(c)}
        check_call(d, "model.reg.linear", [mp(ed), rec], MD, [x, dict(extra, coeff=c, const=b)], ref, abs_=tol(x.values(), *[r.values() for r in c.values()]))


def covmat(d, n, e):
    m = [nums(d, n, e) for _ in range(n)]
    return [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)] if d.bool() else m


def quad(x, C):
    return float(sum(F(x[i]) * F(C[i][j]) * F(x[j]) for i in range(len(x)) for j in range(len(x))))


def linvar(d):
    ed, ec = elem(d) if d.bool() else D, D
    k = d.int(0, 3)
    form = d.below(4)
    x = nums(d, k, ed)
    t = 1e-6

    def badshape(C):
        how = d.below(5)
        if how == 0:
            return C[:-1]
        if how == 1:
            return C + [[0] * (k + 1)] if ec in (I, "long") else C + [[0.0] * (k + 1)]
        if how == 2:
            return C[:-1] + [C[-1][:-1]]
        if how == 3:
            return C[:-1] + [C[-1] + [C[-1][0]]]
        return [r[:-1] for r in C]
    if form in (0, 1):
        mats = [covmat(d, k + 1, ec) for _ in range(1 if form == 0 else d.int(0, 3))]
        bad = bool(mats) and d.chance(1, 6)
        if bad:
            i = d.below(len(mats))
            mats[i] = badshape(mats[i])
        rec, extra = model(d, [("covar", arr(arr(ec)) if form == 0 else arr(arr(arr(ec))))])

        def ref(*a):
            if bad:
                raise Err(31010)
            out = [quad(x + [1.0], C) for C in mats]
            return out[0] if form == 0 else out
        check_call(d, "model.reg.linearVariance", [arr(ed), rec], D if form == 0 else AD, [x, dict(extra, covar=mats[0] if form == 0 else mats)], ref, abs_=t)
    else:
        base = d.sample(KEYS[:4] + [u"\u00e9"], k)
        ks = some(d, base)
        xm = dict(zip(ks, nums(d, len(ks), ed)))

        def mat():
            out = {}
            for i in some(d, base + [""]):
                kk = some(d, base + [""])
                out[i] = dict(zip(kk, nums(d, len(kk), ec)))
            return out

        def q(C):
            z = dict(xm, **{"": 1})
            return float(sum(F(z.get(i, 0)) * F(v) * F(z.get(j, 0)) for i, r in C.items() for j, v in r.items()))
        if form == 2:
            C = mat()
            rec, extra = model(d, [("covar", mp(mp(ec)))])
            check_call(d, "model.reg.linearVariance", [mp(ed), rec], D, [xm, dict(extra, covar=C)], lambda *a: q(C), abs_=t)
        else:
            CC = {o: mat() for o in d.sample(["y", "z", ""], d.int(0, 3))}
            rec, extra = model(d, [("covar", mp(mp(mp(ec))))])
            check_call(d, "model.reg.linearVariance", [mp(ed), rec], MD, [xm, dict(extra, covar=CC)], lambda *a: {o: q(C) for o, C in CC.items()}, abs_=t)


# ------------------------------------------------------------------ Gaussian processes

def gp_kernel(d):
    """a library kernel filled with its parameter, or a user function"""
    g = d.choice([0.5, 1.0, 2.0, 0.7])
    if d.bool():
        arg = {"params": [{"p": AD}, {"q": AD}], "ret": "double", "do": [{"m.kernel.rbf": ["p", "q", g]}]}
        return arg, lambda p, q: math.exp(-g * sum((a - b) ** 2 for a, b in zip(p, q)))
    arg = {"fcn": "m.kernel.rbf", "fill": {"gamma": g}}
    return arg, lambda p, q: math.exp(-g * sum((a - b) ** 2 for a, b in zip(p, q)))


def fsolve(A, b):
    n = len(b)
    m = [list(map(float, r)) + [float(v)] for r, v in zip(A, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        m[c], m[p] = m[p], m[c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            m[r] = [a - f * q for a, q in zip(m[r], m[c])]
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (m[i][n] - sum(m[i][j] * x[j] for j in range(i + 1, n))) / m[i][i]
    return x


def normalize(col):
    m = sum(col) / len(col)
    s = math.sqrt(sum((x - m) ** 2 for x in col) / len(col))
    return m, s


def krige(X, y, sig, beta, k, x, trend=None):
    n = len(X)
    stats = [normalize([r[j] for r in X]) for j in range(len(X[0]))]
    Xn = [[(v - m) / s for v, (m, s) in zip(r, stats)] for r in X]
    ym, ys = normalize(y)
    yn = [(v - ym) / ys for v in y]
    nug = [10 * 2.220446049250313e-16] * n if sig is None else [(s / v) ** 2 for s, v in zip(sig, y)]
    R = [[(1 + nug[i]) if i == j else k(Xn[min(i, j)], Xn[max(i, j)]) for j in range(n)] for i in range(n)]
    if beta is None:
        a, b = fsolve(R, [1.0] * n), fsolve(R, yn)
        beta = sum(b) / sum(a)
    if trend is not None:
        trend.append(beta)
    g = fsolve(R, [v - beta for v in yn])
    xn = [(v - m) / s for v, (m, s) in zip(x, stats)]
    return ym + ys * (beta + sum(k(xn, r) * gi for r, gi in zip(Xn, g)))


def gp(d):
    vecx, vecy, sigma = d.bool(), d.bool(), d.bool()
    nf, no = (d.int(1, 3) if vecx else 1), (d.int(1, 2) if vecy else 1)
    n = d.int(2, 6)
    # distinct, spread table points keep the kernel matrix well conditioned
    cols = [d.shuffle([i * 2.0 + d.int(0, 10) / 10.0 for i in range(n)]) for _ in range(nf)]
    X = [[c[i] for c in cols] for i in range(n)]
    Y = [[d.int(1, 100) / 10.0 * (1 if d.bool() else -1) for _ in range(no)] for _ in range(n)]
    for o in range(no):
        if len(set(r[o] for r in Y)) == 1:
            Y[0][o] += 1.0
            if Y[0][o] == 0:
                Y[0][o] = 0.5
    S = [[d.int(1, 20) / 10.0 for _ in range(no)] for _ in range(n)]
    x = [d.int(-20, 150) / 10.0 for _ in range(nf)]
    kr = d.weighted([(2, None), (1, d.int(-10, 10) / 10.0)])
    arg, k = gp_kernel(d)
    tt = AD if vecy else D
    fs = [{"name": "x", "type": AD if vecx else D}, {"name": "to", "type": tt}] + ([{"name": "sigma", "type": tt}] if sigma else [])
    rec = {"type": "record", "name": "Row", "fields": d.shuffle(fs)}
    table = []
    for i in range(n):
        row = {"x": X[i] if vecx else X[i][0], "to": Y[i] if vecy else Y[i][0]}
        if sigma:
            row["sigma"] = S[i] if vecy else S[i][0]
        table.append(row)
    code = None
    bad = d.below(14)
    xx = x if vecx else x[0]
    if bad == 0:
        table, code = [], 31080
    elif bad == 1 and vecx:
        xx, code = [], 31081
    elif bad == 2 and vecx:
        table[d.below(n)]["x"] = X[0] + [1.0]
        code = 31082
    elif bad == 3 and vecy:
        for r in table:
            r["to"] = []
        code = 31083
    elif bad == 4 and vecy:
        table[d.int(1, n - 1)]["to"] = Y[0] + [1.0]
        code = 31084
    elif bad == 5:
        z = d.choice([INF, -INF, NAN])
        xx, code = ([z] + x[1:] if vecx else z), 31085
    elif bad == 6:
        z = d.choice([INF, -INF, NAN])
        f = d.choice(["x", "to"])
        r = table[d.below(n)]
        r[f] = ([z] + r[f][1:]) if isinstance(r[f], list) else z
        code = 31086
    elif bad == 7:
        kr, code = d.choice([INF, -INF, NAN]), 31087
    elif bad == 8:
        arg, code = {"params": [{"p": AD}, {"q": AD}], "ret": "double", "do": [5.0]}, 31088
    krarg = None if kr is None else {"double": kr}

    def ref(*a):
        if code:
            raise Err(code)
        out = [krige(X, [r[o] for r in Y], [r[o] for r in S] if sigma else None, kr, k, x) for o in range(no)]
        return out if vecy else out[0]
    def eq(got, want):
        if close(got, want, 1e-5, 1e-5):
            return True
        if vecy and kr is None and no > 1 and close(got[0], want[0], 1e-5, 1e-5):
            # the known finding: the trend fitted for the first output is used for the others
            trend = []
            krige(X, [r[0] for r in Y], [r[0] for r in S] if sigma else None, None, k, x, trend)
            known = [want[0]] + [krige(X, [r[o] for r in Y], [r[o] for r in S] if sigma else None, trend[0], k, x) for o in range(1, no)]
            if close(got, known, 1e-5, 1e-5):
                raise Violation("gaussianProcess without a kriging weight: the trend of the first output is used for the others: got %s, expected %s" % (show(got), show(want)), "gp-trend")
        return False
    check_call(d, "model.reg.gaussianProcess", [AD if vecx else D, {"type": "array", "items": rec}, ["null", "double"], ("expr", arg)], tt,
               [xx, table, krarg, None], ref, rel=1e-5, abs_=1e-5, eq=eq)


SUBS = [Sub("linear", linear, 500, 12000), Sub("linearVariance", linvar, 500, 12000), Sub("gaussianProcess", gp, 250, 6000)] \
    + resid.subs("model.reg.", (31020, 31030, 31040, 31070), "DOF", False)


def _trend():
    row = {"type": "record", "name": "Row", "fields": [{"name": "x", "type": D}, {"name": "to", "type": AD}]}
    kernel = {"params": [{"p": AD}, {"q": AD}], "ret": "double", "do": [{"m.kernel.rbf": ["p", "q", 0.5]}]}
    X, Y = [[0.0], [2.0], [5.0]], [[0.9, 3.0], [-0.1, 1.0], [0.3, 7.0]]
    got = libcall("model.reg.gaussianProcess", [D, {"type": "array", "items": row}, ["null", "double"], ("expr", kernel)], AD)(
        1.5, [{"x": x[0], "to": y} for x, y in zip(X, Y)], None, None)
    k = lambda p, q: math.exp(-0.5 * sum((a - b) ** 2 for a, b in zip(p, q)))
    want = [krige(X, [r[o] for r in Y], None, None, k, [1.5]) for o in (0, 1)]
    if got[0] != "ok" or not close(got[1], want, 1e-6, 1e-6):
        raise Violation("gaussianProcess: got %s, expected %s" % (show(got), show(want)), "gp-trend")


PROBES = {"gp-trend": _trend}
