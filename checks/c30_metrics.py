"""C30: metrics, link functions, kernels and interpolation against their formulas."""
from fractions import Fraction as F
import math

from pbt import Violation, close, show
from runner import Sub
from engines import Err, build, check_call, compare_outcomes, libcall, norm, outcome, refoutcome
from libfn import V, fnsub, fcnarg

RULE = ("one generated call per case; vectors of 0 to 5 elements including mismatched lengths, missing values on either side, weights, library and user "
        "similarity functions, huge and tiny magnitudes, infinities; tables of 0 to 6 unordered points with duplicate abscissas; distinct = distinct "
        "(function, arguments)")
ASSUMPTIONS = ["similarities are not NaN; NaN abscissas in tables are not specified",
               "squares and exponentials beyond the range of a double are infinite",
               "interp.bin may put a value within rounding error of an edge in either bin",
               "among equally near table entries the first one wins"]

A, D, B, I = {"type": "array", "items": "double"}, "double", "boolean", "int"
INF, NAN = float("inf"), float("nan")


def ar(t):
    return {"type": "array", "items": t}


def num(d, big=True):
    k = d.below(12)
    if k <= 5:
        return float(d.int(-5, 5))
    if k <= 9:
        return d.int(-4000, 4000) / 1000.0
    if k == 10 or not big:
        return d.int(-80, 80) / 8.0
    return d.choice([1e3, -1e3, 750.0, -750.0, 1e200, -1e200, 1e-200, 1e308, 0.0, -0.0, 40.0, -40.0])


def vec(d, n=None, big=True):
    return [num(d, big) for _ in range(d.below(6) if n is None else n)]


def pair(d, big=True):
    n = d.below(6)
    return vec(d, n, big), vec(d, n if d.chance(7, 8) else d.below(6), big)


def mulp(x, y):
    return x * y


def exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a)
    if abs(a) == INF and abs(b) == INF:
        return NAN
    return a / b


def jpow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return INF
    except ValueError:
        return NAN


def sqrt(x):
    return math.sqrt(x) if x == x and x >= 0 else NAN


def lens(code, *vs):
    if len({len(v) for v in vs}) > 1:
        raise Err(code)


SUBS = []


# ---- plain metrics

def simple(x, y):
    lens(28000, x, y)
    return sqrt(sum(((a - b) * (a - b) for a, b in zip(x, y)), 0.0))


SUBS.append(fnsub("metric.simpleEuclidean", V([A, A], D, lambda d: list(pair(d)), simple)))
SUBS.append(fnsub("metric.absDiff", V([D, D], D, lambda d: [num(d), num(d)], lambda x, y: abs(x - y)), 150))
SUBS.append(fnsub("metric.gaussianSimilarity", V([D, D, D], D, lambda d: [num(d), num(d), num(d)],
                                                   lambda x, y, s: exp(div(-math.log(2) * ((x - y) * (x - y)), s * s)))))

# ---- metrics with missing values

SIM = [("absDiff", {"fcn": "metric.absDiff"}, lambda a, b: abs(a - b)),
       ("abs", None, lambda a, b: abs(a - b)), ("weighted", None, lambda a, b: abs(a - b) * 2 + 1.0), ("prod", None, lambda a, b: a * b)]
SIMBODY = {"abs": {"m.abs": {"-": ["x", "y"]}}, "weighted": {"+": [{"*": [{"m.abs": {"-": ["x", "y"]}}, 2]}, 1.0]}, "prod": {"*": ["x", "y"]}}


def missing(name, code):
    def case(d):
        nm, e, f = d.choice(SIM if name not in ("minkowski", "euclidean", "chebyshev") else SIM[:3])
        fcns = None
        if e is None:
            e, fcns = fcnarg(d, [("x", D), ("y", D)], D, SIMBODY[nm], 1, name="sim")
        else:
            e = ("expr", e)
        n = d.below(6)
        nx = d.bool()
        ny = d.bool()
        big = d.chance(1, 5)
        m = n if d.chance(9, 10) else d.below(6)
        x = [None if nx and d.chance(1, 3) else num(d, big) for _ in range(n)]
        y = [None if ny and d.chance(1, 3) else num(d, big) for _ in range(m)]
        if d.chance(1, 4):
            y = list(x) if ny or not nx else [num(d) if v is None else v for v in x]
        tx = ar(["null", D]) if nx else A
        ty = ar(["null", D]) if ny else A
        params = [e, tx, ty]
        args = [e, [v if v is None or not nx else {D: v} for v in x], [v if v is None or not ny else {D: v} for v in y]]
        p = None
        if name == "minkowski":
            p = d.choice([1.0, 2.0, 3.0, 0.5, INF, 1.5, 0.0, -1.0, NAN]) if d.chance(3, 4) else d.int(1, 30) / 8.0
            params.append(D)
            args.append(p)
        w = None
        if d.bool():
            w = [d.choice([1.0, 0.0, 0.5, 2.0, 3.0]) for _ in range(len(x) if d.chance(9, 10) else d.below(6))]
            params.append(A)
            args.append(w)

        def ref(*_):
            ws = [1.0] * len(x) if w is None else w
            lens(code, x, y, ws)
            if p is not None and not p > 0:
                raise Err(code + 1)
            both = [(f(a, b), q) for a, b, q in zip(x, y, ws) if a is not None and b is not None]
            have, total = sum((q for _, q in both), 0.0), sum(ws, 0.0)
            if have == 0:
                return NAN
            s = [v for v, _ in both]
            if name == "taxicab":
                return sum(s, 0.0) * total / have
            if name == "squaredEuclidean":
                return sum((v * v for v in s), 0.0) * total / have
            if name == "euclidean":
                return sqrt(sum((v * v for v in s), 0.0) * total / have)
            if name == "chebyshev" or p == INF:
                return max([0.0] + s) * total / have
            return jpow(sum((jpow(v, p) for v in s), 0.0) * total / have, 1.0 / p)
        check_call(d, "metric." + name, params, D, args, ref, fcns=fcns, refargs=[], abs_=1e-9)
        d.label(nm)
    return Sub("metric." + name, case, 300, 9000)


for _n, _c in [("euclidean", 28030), ("squaredEuclidean", 28040), ("chebyshev", 28050), ("taxicab", 28060), ("minkowski", 28070)]:
    SUBS.append(missing(_n, _c))

# ---- binary metrics


def bools(d):
    n = d.below(7)
    return [[d.bool() for _ in range(n)], [d.bool() for _ in range(n if d.chance(7, 8) else d.below(7))]]


def counts(code, x, y):
    lens(code, x, y)
    c = {(a, b): 0 for a in (False, True) for b in (False, True)}
    for q in zip(x, y):
        c[q] += 1
    return c[False, False], c[False, True], c[True, False], c[True, True]


def matching(x, y):
    a, b, c, e = counts(28080, x, y)
    return div(a + e, a + b + c + e)


def jaccard(x, y):
    a, b, c, e = counts(28090, x, y)
    return div(e, b + c + e)


def tanimoto(x, y):
    a, b, c, e = counts(28100, x, y)
    return div(a + e, a + 2 * (b + c) + e)


def binsim(x, y, *k):
    n = counts(28110, x, y)
    return div(sum(a * b for a, b in zip(k[:4], n)), sum(a * b for a, b in zip(k[4:], n)))


SUBS += [fnsub("metric.simpleMatching", V([ar(B), ar(B)], D, bools, matching), 200), fnsub("metric.jaccard", V([ar(B), ar(B)], D, bools, jaccard), 200),
         fnsub("metric.tanimoto", V([ar(B), ar(B)], D, bools, tanimoto), 200),
         fnsub("metric.binarySimilarity", V([ar(B), ar(B)] + [D] * 8, D, lambda d: bools(d) + [float(d.int(-2, 3)) for _ in range(8)], binsim), 200)]

# ---- laws of the metrics


def laws(d):
    n = d.int(1, 5)
    x, y = vec(d, n, False), vec(d, n, False)
    name = d.choice(["euclidean", "squaredEuclidean", "chebyshev", "taxicab", "minkowski"])
    e = ("expr", {"fcn": "metric.absDiff"})
    more = [d.choice([1.0, 2.0, 3.0, INF])] if name == "minkowski" else []
    f = libcall("metric." + name, [e, A, A] + [D] * len(more), D)
    d.note({"metric": name, "x": x, "y": y, "more": more})
    d.sut()
    xy, yx, xx = [f(e, a, b, *more) for a, b in ((x, y), (y, x), (x, x))]
    if xy != yx or xx != ("ok", 0.0) or not xy[1] >= 0 or (x != y and xy[1] == 0.0):
        raise Violation("metric.%s: d(x,y)=%s d(y,x)=%s d(x,x)=%s for x=%s y=%s" % (name, xy, yx, xx, x, y))
    z = vec(d, n, False)
    if name != "squaredEuclidean":
        xz, zy = f(e, x, z, *more)[1], f(e, z, y, *more)[1]
        if xy[1] > (xz + zy) * (1 + 1e-9) + 1e-9:
            raise Violation("metric.%s: triangle inequality fails for x=%s y=%s z=%s" % (name, x, y, z))
    d.nontrivial(repr((name, x, y, more)))


SUBS.append(Sub("metric laws", laws, 300, 9000))


# ---- links

def links():
    def each(f):
        return {"a": lambda x: [f(v) for v in x], "m": lambda x: {k: f(v) for k, v in x.items()}, "s": f}
    fs = [("logit", lambda v: NAN if v != v else (1 / (1 + exp(-v)))), ("probit", lambda v: 0.5 * math.erfc(-v / math.sqrt(2))),
          ("cloglog", lambda v: -math.expm1(-exp(v))), ("loglog", lambda v: math.exp(-exp(v))), ("cauchit", lambda v: 0.5 + math.atan(v) / math.pi),
          ("softplus", lambda v: v if v > 40 else math.log1p(exp(v))), ("relu", lambda v: v if v != v or v > 0 else 0.0), ("tanh", math.tanh)]

    def val(d):
        k = d.below(10)
        return d.choice([NAN, INF, -INF, 0.0, -0.0]) if k == 0 else num(d) if k < 4 else d.int(-40000, 40000) / 1000.0
    for n, f in fs:
        g = each(f)
        SUBS.append(fnsub("m.link." + n, [
            V([D], D, lambda d: [val(d)], g["s"]), V([A], A, lambda d: [[val(d) for _ in range(d.below(5))]], g["a"]),
            V([{"type": "map", "values": D}], {"type": "map", "values": D}, lambda d: [{k: val(d) for k in d.sample("abcd", d.below(5))}], g["m"])], 200))


links()


def softmax(x):
    if not x:
        raise Err(25000)
    vs = x if isinstance(x, list) else list(x.values())
    m = max(vs)
    es = [F(math.exp(v - m)) for v in vs]
    t = sum(es)
    out = [float(e / t) for e in es]
    return out if isinstance(x, list) else dict(zip(x, out))


SUBS.append(fnsub("m.link.softmax", [
    V([A], A, lambda d: [vec(d)], softmax),
    V([{"type": "map", "values": D}], {"type": "map", "values": D}, lambda d: [{k: num(d) for k in d.sample("abcd", d.below(5))}], softmax)], 300))


# ---- kernels

def dot(code, x, y):
    lens(code, x, y)
    return sum((a * b for a, b in zip(x, y)), 0.0)


def rbf(x, y, g):
    lens(23010, x, y)
    return exp(-g * sum(((a - b) * (a - b) for a, b in zip(x, y)), 0.0))


small = lambda d: list(pair(d, False))
SUBS += [fnsub("m.kernel.linear", V([A, A], D, small, lambda x, y: dot(23000, x, y)), 200),
         fnsub("m.kernel.rbf", V([A, A, D], D, lambda d: list(pair(d)) + [num(d, False)], rbf), 200),
         fnsub("m.kernel.poly", V([A, A, D, D, D], D, lambda d: small(d) + [num(d, False), num(d, False), d.choice([1.0, 2.0, 3.0, 0.0, 0.5, -1.0, 2.5])],
                                   lambda x, y, g, c, e: jp(g * dot(23020, x, y) + c, e)), 200),
         fnsub("m.kernel.sigmoid", V([A, A, D, D], D, lambda d: small(d) + [num(d, False), num(d, False)],
                                      lambda x, y, g, c: math.tanh(g * dot(23030, x, y) + c)), 200)]


def jp(x, y):
    if x == 0 and y < 0:
        return INF
    return jpow(x, y)


# ---- interpolation: bin

IMAX = 2 ** 31


def bin1(d):
    k = d.below(10)
    n = d.int(1, 12) if k else d.int(-2, 0)
    lo = float(d.int(-8, 8))
    hi = lo + d.choice([1.0, 2.0, 4.0, 8.0, 3.0, 10.0])
    if d.chance(1, 12):
        lo, hi = d.choice([(hi, lo), (lo, lo), (NAN, hi), (lo, NAN), (-INF, hi), (lo, INF), (-INF, INF)])
    x = d.choice([lo, hi, lo + (hi - lo) * d.below(max(1, n) + 1) / max(1, n), lo + (hi - lo) * d.unit(), num(d), NAN, INF, -INF, lo - 1e-9]) \
        if lo == lo and hi == hi and abs(lo) < INF and abs(hi) < INF else num(d)
    d.note({"x": x, "numbins": n, "low": lo, "high": hi})
    d.sut()
    got = libcall("interp.bin", [D, I, D, D], I)(x, n, lo, hi)
    if not lo < hi or lo == -INF or hi == INF:
        ok = {("err", 22000)} | ({("err", 22001)} if n < 1 else set())
    elif n < 1:
        ok = {("err", 22001)}
    elif x != x or not lo <= x < hi:
        ok = {("err", 22002)}
    else:
        q = n * (F(x) - F(lo)) / (F(hi) - F(lo))
        ok = {("ok", math.floor(q))}
        w = hi - lo
        if not (w in (1, 2, 4, 8) and n in (1, 2, 4, 8) and abs(x) < 1e6 and x * 2 ** 20 == int(x * 2 ** 20)):
            for e in (F(1, 10 ** 9), F(-1, 10 ** 9)):
                z = math.floor(q + e)
                ok.add(("ok", z) if 0 <= z < n else ("err", 22002))
    if got not in ok:
        raise Violation("interp.bin(%r, %r, %r, %r): got %s, expected %s" % (x, n, lo, hi, got, ok))
    d.nontrivial(repr((x, n, lo, hi)))
    d.label(got[0])


def bin2(d):
    w = d.choice([1.0, 2.0, 0.5, 0.125, 3.0, 0.1, 1e-300, 0.0, -1.0, NAN]) if d.chance(4, 5) else d.int(1, 5000) / 1000.0
    o = d.choice([0.0, 1.0, -2.5, 1e6]) if not d.chance(1, 12) else d.choice([NAN, INF, -INF])
    x = d.choice([o + d.int(-9, 9) * w, num(d), d.int(-10 ** 12, 10 ** 12) / 1000.0, float(d.choice([IMAX, -IMAX, IMAX - 1, IMAX * w if w == w else 0.0])),
                  d.choice([NAN, INF, -INF, 1e300, -1e300])])
    if o == o and abs(o) < INF and w == w and x == x and abs(x) < INF and w > 0:
        q = (F(x) - F(o)) / F(w)
        ok = set()
        dy = w in (1, 2, 0.5, 0.125) and x - o + o == x and F(x) - F(o) == F(x - o)
        for e in ((0,) if dy else (0, abs(q) * F(1, 10 ** 14) + F(1, 10 ** 9), -abs(q) * F(1, 10 ** 14) - F(1, 10 ** 9))):
            z = math.floor(q + e)
            ok.add(("ok", z) if -IMAX <= z < IMAX else ("err", 22002))
    else:
        ok = set()
        if o != o or abs(o) == INF:
            ok.add(("err", 22000))
        if not w > 0:
            ok.add(("err", 22001))
        if x != x or abs(x) == INF:
            ok.add(("err", 22002))
    d.note({"x": x, "origin": o, "width": w})
    d.sut()
    got = libcall("interp.bin", [D, D, D], I)(x, o, w)
    if got not in ok:
        raise Violation("interp.bin(%r, origin %r, width %r): got %s, expected %s" % (x, o, w, got, ok))
    d.nontrivial(repr((x, o, w)))
    d.label(got[0])


SUBS += [Sub("interp.bin numbins", bin1, 400, 12000), Sub("interp.bin width", bin2, 400, 12000)]


# ---- interpolation: nearest

def rec(tx, to, name="Pt"):
    return {"type": "record", "name": name, "fields": [{"name": "x", "type": tx}, {"name": "to", "type": to}]}


TOS = [(D, lambda d: num(d, False)), ("string", lambda d: d.str("abc", 0, 3)), (I, lambda d: d.int(-9, 9)), (A, lambda d: vec(d, 2, False))]


def nearest(d):
    k = d.below(3)
    tt, tv = d.choice(TOS)
    n = d.below(6) if not d.chance(1, 10) else 0
    if k == 0:
        x = num(d)
        table = [{"x": num(d), "to": tv(d)} for _ in range(n)]
        dist = lambda p: abs(x - p["x"])
        check_call(d, "interp.nearest", [D, ar(rec(D, tt))], tt, [x, table], lambda x, t: near(t, dist))
    elif k == 1:
        m = d.int(0, 3)
        x = vec(d, m)
        table = [{"x": vec(d, m if not d.chance(1, 25) else d.below(4)), "to": tv(d)} for _ in range(n)]

        def dist(p):
            if len(p["x"]) != len(x):
                raise Err(22011)
            return sum(((a - b) * (a - b) for a, b in zip(x, p["x"])), 0.0)
        check_call(d, "interp.nearest", [A, ar(rec(A, tt))], tt, [x, table], lambda x, t: near(t, dist))
    else:
        kk = d.int(1, 3)
        e, fcns = fcnarg(d, [("p", "string"), ("q", I)], D, {"m.abs": {"-": [{"*": [{"s.len": "p"}, "kk"]}, "q"]}}, kk, name="dist")
        x = d.str("ab", 0, 5)
        table = [{"x": d.int(0, 12), "to": tv(d)} for _ in range(n)]
        check_call(d, "interp.nearest", ["string", ar(rec(I, tt)), e], tt, [x, table, e], lambda x, t: near(t, lambda p: abs(len(x) * kk - p["x"])), fcns=fcns)


def near(t, dist):
    if not t:
        raise Err(22010)
    best = None
    for p in t:
        q = dist(p)
        if best is None or q < best[0]:
            best = (q, p["to"])
    return best[1]


SUBS.append(Sub("interp.nearest", nearest, 500, 15000))

# ---- interpolation: linear


def tablecase(d, multi):
    n = d.weighted([(1, 0), (1, 1), (4, 2), (4, 3), (4, 4), (3, 6)])
    dims = d.int(0, 3)
    xs = [float(d.int(-4, 4)) if d.bool() else d.int(-40, 40) / 8.0 for _ in range(n)]
    t = [{"x": x, "to": vec(d, dims if not d.chance(1, 30) else d.below(4), False) if multi else num(d, False)} for x in xs]
    x = d.choice(xs) if xs and d.chance(1, 4) else d.choice([min(xs + [0.0]) - 1.0, max(xs + [0.0]) + 2.0]) if d.chance(1, 4) else d.int(-50, 50) / 10.0
    return x, t


def lin(x, t, code, flat, miss):
    """interpolation between the nearest points around x; beyond the table, extrapolation from the two nearest distinct points"""
    below = [p for p in t if p["x"] <= x]
    above = [p for p in t if p["x"] > x]
    if below and above:
        a = max(below, key=lambda p: p["x"])        # max and min return the first of equals
        b = min(above, key=lambda p: p["x"])
    else:
        if len({p["x"] for p in t}) < 2:
            raise Err(code)
        a = min(t, key=lambda p: abs(p["x"] - x))
        b = min([p for p in t if p["x"] != a["x"]], key=lambda p: abs(p["x"] - x))
        if flat:
            return a["to"]
        if miss and a["x"] != x:
            return None
    u = (F(x) - F(a["x"])) / (F(b["x"]) - F(a["x"]))

    def one(p, q):
        return float((1 - u) * F(p) + u * F(q))
    if isinstance(a["to"], list):
        if len(a["to"]) != len(b["to"]):
            raise Err(code + 1)
        return [one(p, q) for p, q in zip(a["to"], b["to"])]
    return one(a["to"], b["to"])


def mklin(name, code, flat):
    def case(d):
        multi = d.bool()
        x, t = tablecase(d, multi)
        to = A if multi else D
        check_call(d, name, [D, ar(rec(D, to))], to, [x, t], lambda x, t: lin(x, t, code, flat, False), abs_=1e-9)
    return Sub(name, case, 400, 12000)


SUBS += [mklin("interp.linear", 22020, False), mklin("interp.linearFlat", 22030, True)]

_miss = {}


def missengine(multi):
    if multi not in _miss:
        to = A if multi else D
        _miss[multi] = build({"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": D}, {"name": "table", "type": ar(rec(D, to))}]},
                              "output": ["null", to], "action": {"interp.linearMissing": ["input.x", "input.table"]}})
    return _miss[multi]


def linmissing(d):
    multi = d.bool()
    x, t = tablecase(d, multi)
    d.note({"x": x, "table": t})
    d.sut()
    got = outcome(missengine(multi).action, {"x": x, "table": t})
    if got[0] == "ok" and isinstance(got[1], dict) and len(got[1]) == 1:
        got = ("ok", list(got[1].values())[0])
    compare_outcomes("interp.linearMissing", [x, t], got, refoutcome(lambda: lin(x, t, 22040, False, True)), abs_=1e-9)
    d.nontrivial(repr((x, t)))
    d.label("missing" if got == ("ok", None) else got[0])


SUBS.append(Sub("interp.linearMissing", linmissing, 400, 12000))


def _untagged():
    e = build({"input": D, "output": "string", "action": {"cast": {"interp.linearMissing": ["input", {"type": ar(rec(D, D)), "value": [
        {"x": 0.0, "to": 1.0}, {"x": 1.0, "to": 2.0}]}]}, "cases": [{"as": D, "named": "y", "do": {"string": "number"}},
                                                                    {"as": "null", "named": "y", "do": {"string": "missing"}}]}})
    try:
        return e.action(0.5) != "number" or missengine(False).action({"x": 0.5, "table": [{"x": 0.0, "to": 1.0}, {"x": 1.0, "to": 2.0}]}) != {"double": 1.5}
    except Exception:
        return True


PROBES = {"linearMissing-untagged": _untagged}
