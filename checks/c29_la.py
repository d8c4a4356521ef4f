"""C29: linear algebra on dense arrays and sparse maps against definitions in exact rational arithmetic."""
from fractions import Fraction as F
import math

from pbt import Violation, close, show
from runner import Sub
from engines import Err, check_call, libcall, norm, refoutcome
from libfn import V, fnsub, fcnarg

RULE = ("one generated call per case; matrices of 1 to 4 rows and columns with small integer, half-integer or decimal entries, singular, repeated-eigenvalue "
        "and symmetric ones included, sparse maps with missing rows and cells, ragged, empty and misaligned shapes, non-finite entries; results are "
        "compared with rational arithmetic or with the algebraic definition; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["the rows of an eigenbasis may change sign, and rotate among themselves for equal eigenvalues",
               "when a matrix breaks several requirements at once, which of the documented errors is raised is not specified",
               "inverses of non-finite matrices are not specified"]

A, M, MA, MM, D = {"type": "array", "items": "double"}, {"type": "map", "values": "double"}, None, None, "double"
MA = {"type": "array", "items": A}
MM = {"type": "map", "values": M}
KEYS = "abcde"


def num(d):
    k = d.below(4)
    if k == 0:
        return float(d.int(-3, 3))
    if k == 1:
        return d.int(-6, 6) / 2.0
    if k == 2:
        return d.int(-4000, 4000) / 1000.0
    return float(d.int(-30, 30))


def special(d):
    return d.choice([float("nan"), float("inf"), float("-inf")])


def mat(d, r=None, c=None, lo=1):
    r = d.int(lo, 4) if r is None else r
    c = d.int(lo, 4) if c is None else c
    return [[num(d) for _ in range(c)] for _ in range(r)]


def smat(d, rk=None, ck=None):
    rk = d.sample(KEYS, d.int(0, 4)) if rk is None else rk
    ck = d.sample(KEYS, d.int(0, 4)) if ck is None else ck
    full = d.bool()
    return {r: {c: num(d) for c in ck if full or d.chance(2, 3)} for r in rk}


def tosparse(x):
    return {KEYS[i]: {KEYS[j]: v for j, v in enumerate(r)} for i, r in enumerate(x)}


def ragged(d, x):
    x = [list(r) for r in x]
    if len(x) > 1:
        i = d.below(len(x))
        if x[i] and d.bool() and not (i == 0 and len(x[0]) == 1):
            x[i].pop()
        else:
            x[i].append(1.0)
    return x


def isragged(x):
    return len({len(r) for r in x}) > 1


def rows(x):
    return set(x)


def cols(x):
    return {c for r in x.values() for c in r}


def get(x, i, j):
    return x.get(i, {}).get(j, 0.0)


def nonfinite(xs):
    return any(v != v or v in (float("inf"), float("-inf")) for v in xs)


def cells(x):
    if isinstance(x, dict):
        return [v for r in x.values() for v in (r.values() if isinstance(r, dict) else [r])]
    return [v for r in x for v in (r if isinstance(r, list) else [r])]


SUBS = []

# ---- map, scale, zipmap, add, sub


def spoil(d, x):
    """maybe make an entry non-finite"""
    if d.chance(1, 10):
        if isinstance(x, list) and x and isinstance(x[0], list) and x[0]:
            x[0][0] = special(d)
        elif isinstance(x, dict) and x:
            r = sorted(x)[0]
            if isinstance(x[r], dict):
                if x[r]:
                    x[r][sorted(x[r])[0]] = special(d)
            else:
                x[r] = special(d)
    return x


def anymat(d):
    x = mat(d, lo=0)
    return spoil(d, ragged(d, x) if d.chance(1, 4) else x)


def mapcase(d):
    k = d.int(-3, 3)
    e, fcns = fcnarg(d, [("x", D)], D, {"+": [{"*": ["x", "kk"]}, 0.5]}, k)
    f = lambda v: v * k + 0.5
    if d.bool():
        check_call(d, "la.map", [MA, e], MA, [anymat(d), e], lambda x: [[f(v) for v in r] for r in x], fcns=fcns)
    else:
        check_call(d, "la.map", [MM, e], MM, [spoil(d, smat(d)), e], lambda x: {i: {j: f(v) for j, v in r.items()} for i, r in x.items()}, fcns=fcns)


SUBS.append(Sub("la.map", mapcase, 200, 6000))
SUBS.append(fnsub("la.scale", [
    V([A, D], A, lambda d: [[num(d) for _ in range(d.below(5))], num(d)], lambda x, a: [v * a for v in x]),
    V([MA, D], MA, lambda d: [anymat(d), num(d)], lambda x, a: [[v * a for v in r] for r in x]),
    V([M, D], M, lambda d: [{k: num(d) for k in d.sample(KEYS, d.below(5))}, num(d)], lambda x, a: {k: v * a for k, v in x.items()}),
    V([MM, D], MM, lambda d: [spoil(d, smat(d)), num(d)], lambda x, a: {i: {j: v * a for j, v in r.items()} for i, r in x.items()})]))


def two(d):
    x = mat(d, lo=0)
    k = d.below(5)
    if k == 0:
        y = mat(d, lo=0)
    elif k == 1:
        y = ragged(d, mat(d, len(x), len(x[0]) if x else 0))
    else:
        y = mat(d, len(x), len(x[0]) if x else 0)
    return [spoil(d, x), y]


def zipdense(code, f):
    def ref(x, y):
        if len(x) != len(y) or any(len(a) != len(b) for a, b in zip(x, y)):
            raise Err(code)
        return [[f(a, b) for a, b in zip(p, q)] for p, q in zip(x, y)]
    return ref


def zipsparse(f):
    def ref(x, y):
        return {i: {j: f(get(x, i, j), get(y, i, j)) for j in cols(x) | cols(y)} for i in rows(x) | rows(y)}
    return ref


def zipcase(d):
    k = d.int(-3, 3)
    e, fcns = fcnarg(d, [("x", D), ("y", D)], D, {"+": [{"*": ["x", "kk"]}, {"*": ["y", 2]}]}, k)
    f = lambda a, b: a * k + b * 2
    if d.bool():
        check_call(d, "la.zipmap", [MA, MA, e], MA, two(d) + [e], zipdense(24020, f), fcns=fcns)
    else:
        check_call(d, "la.zipmap", [MM, MM, e], MM, [smat(d), spoil(d, smat(d)), e], zipsparse(f), fcns=fcns)


SUBS.append(Sub("la.zipmap", zipcase, 200, 6000))


def vecs(d):
    n = d.below(5)
    return [[num(d) for _ in range(n)], [num(d) for _ in range(n if d.chance(5, 6) else d.below(5))]]


def vzip(code, f):
    def ref(x, y):
        if len(x) != len(y):
            raise Err(code)
        return [f(a, b) for a, b in zip(x, y)]
    return ref


def svec(d):
    return {k: num(d) for k in d.sample(KEYS, d.below(5))}


for _n, _c, _f in [("la.add", 24030, lambda a, b: a + b), ("la.sub", 24040, lambda a, b: a - b)]:
    SUBS.append(fnsub(_n, [
        V([A, A], A, vecs, vzip(_c, _f)), V([MA, MA], MA, two, zipdense(_c, _f)),
        V([M, M], M, lambda d: [spoil(d, svec(d)), svec(d)], lambda x, y, f=_f: {k: f(x.get(k, 0.0), y.get(k, 0.0)) for k in set(x) | set(y)}),
        V([MM, MM], MM, lambda d: [smat(d), spoil(d, smat(d))], zipsparse(_f))]))

# ---- dot


def dotcase(d):
    k = d.below(4)
    if k < 2:
        n = d.int(1, 4)
        x = mat(d, None, n)
        y = mat(d, n) if k == 0 else [num(d) for _ in range(n)]
        what = d.weighted([(8, "ok"), (1, "misaligned"), (1, "empty"), (1, "nonfinite"), (1, "ragged")])
        if what == "misaligned":
            if k == 0:
                y = mat(d, n + 1)
            else:
                y = y + [1.0]
            want = ("err", 24050)
        elif what == "empty":
            if d.bool():
                x = d.choice([[], [[]], [[], []]])
            else:
                y = d.choice([[], [[]], [[], []]]) if k == 0 else []
            want = ("err", 24051)
        elif what == "ragged":
            if k == 0 and d.bool():
                y = ragged(d, mat(d, max(2, n)))
                x = mat(d, None, len(y))
            else:
                x = ragged(d, mat(d, d.int(2, 4), n))
            want = ("err", 24050)
        elif what == "nonfinite":
            if d.bool() or k == 1:
                x[d.below(len(x))][d.below(n)] = special(d)
            else:
                y[d.below(n)][0] = special(d)
            want = ("err", 24052)
        elif k == 0:
            want = ("ok", [[float(sum(F(x[i][m]) * F(y[m][j]) for m in range(n))) for j in range(len(y[0]))] for i in range(len(x))])
        else:
            want = ("ok", [float(sum(F(x[i][m]) * F(y[m]) for m in range(n))) for i in range(len(x))])
        params, ret = ([MA, MA], MA) if k == 0 else ([MA, A], A)
    else:
        x = smat(d)
        y = smat(d) if k == 2 else svec(d)
        empty = not x or not (cols(x) | set(y)) or (k == 2 and not cols(y))
        if d.chance(1, 8):
            t = spoil(d, y)
        if empty:
            want = ("err", 24051)
        elif nonfinite(cells(x)) or nonfinite(cells(y)):
            want = ("err", 24052)
        elif k == 2:
            want = ("ok", {i: {j: float(sum(F(get(x, i, m)) * F(get(y, m, j)) for m in KEYS)) for j in cols(y)} for i in x})
        else:
            want = ("ok", {i: float(sum(F(get(x, i, m)) * F(y.get(m, 0.0)) for m in KEYS)) for i in x})
        params, ret = ([MM, MM], MM) if k == 2 else ([MM, M], M)

    def ref(*a):
        if want[0] == "err":
            raise Err(want[1])
        return want[1]
    check_call(d, "la.dot", params, ret, [x, y], ref, abs_=1e-9)


SUBS.append(Sub("la.dot", dotcase, 500, 20000))


# ---- shapes

def shaped(code, square=False, finite=False, empty_ok=False):
    def check(x):
        bad = set()
        if len(x) < 1 or len(x[0]) < 1:
            bad.add(code)
        if isragged(x):
            bad.add(code + 1)
        if square and x and len(x) != len(x[0]):
            bad.add(code + 2)
        return bad
    return check


def errs(d, fcn, params, ret, args, bad, ref, **kw):
    """bad: acceptable error codes"""
    if len(bad) > 1:
        d.note({"fcn": fcn, "args": args})
        d.sut()
        got = libcall(fcn, params, ret)(*args)
        if got[0] != "err" or got[1] not in bad:
            raise Violation("%s%s: got %s, expected one of the errors %s" % (fcn, show(args), show(got), sorted(bad)))
        d.nontrivial(repr((fcn, args)))
        return got

    def r(*a):
        if bad:
            raise Err(list(bad)[0])
        return ref(*a)
    return check_call(d, fcn, params, ret, args, r, **kw)


def shape(d, square=False):
    """a dense matrix, sometimes of a bad shape"""
    k = d.below(12)
    if k == 0:
        return d.choice([[], [[]], [[], []]])
    n = d.int(1, 4)
    m = n if square and not d.chance(1, 8) else d.int(1, 4)
    x = mat(d, n, m)
    if k == 1:
        x = ragged(d, x)
    return x


def transpose(d):
    if d.bool():
        x = spoil(d, shape(d))
        errs(d, "la.transpose", [MA], MA, [x], shaped(24060)(x), lambda x: [list(c) for c in zip(*x)])
    else:
        x = smat(d)
        bad = set()
        if not x or not cols(x):
            bad.add(24060)
        elif len({frozenset(r) for r in x.values()}) > 1:
            bad.add(24061)
        errs(d, "la.transpose", [MM], MM, [x], bad, lambda x: {j: {i: x[i][j] for i in x} for j in cols(x)})


SUBS.append(Sub("la.transpose", transpose, 240, 6000))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def fr(x):
    return [[F(v) for v in r] for r in x]


def gauss(x):
    """(determinant, rank, inverse or None) in rational arithmetic; determinant None when not square"""
    n, m = len(x), len(x[0])
    a = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(fr(x))]
    det, rank = F(1), 0
    for c in range(m):
        p = next((i for i in range(rank, n) if a[i][c] != 0), None)
        if p is None:
            det = F(0)
            continue
        if p != rank:
            a[p], a[rank] = a[rank], a[p]
            det = -det
        det *= a[rank][c]
        pv = a[rank][c]
        a[rank] = [v / pv for v in a[rank]]
        for i in range(n):
            if i != rank and a[i][c] != 0:
                q = a[i][c]
                a[i] = [v - q * w for v, w in zip(a[i], a[rank])]
        rank += 1
    if n == m and rank == n:
        return det, rank, [r[m:] for r in a]
    return (det if n == m else None), rank, None


def size(x):
    return max([abs(v) for r in x for v in r] + [1.0])


def closemat(x, y, tol):
    return len(x) == len(y) and all(len(a) == len(b) and all(abs(p - q) <= tol for p, q in zip(a, b)) for a, b in zip(x, y))


def isinverse(x, g):
    """g is the Moore-Penrose inverse of x (the inverse, when there is one)"""
    n, m = len(x), len(x[0])
    if len(g) != m or any(len(r) != n for r in g) or nonfinite(cells(g)):
        return False
    det, rank, inv = gauss(x)
    tol = 1e-8 * size(x) * size(g) * max(size(x), size(g))
    if inv is not None:
        return closemat(g, [[float(v) for v in r] for r in inv], tol)
    T = lambda a: [list(c) for c in zip(*a)]
    xg, gx = mul(x, g), mul(g, x)
    return closemat(mul(xg, x), x, tol) and closemat(mul(gx, g), g, tol) and closemat(xg, T(xg), tol) and closemat(gx, T(gx), tol)


def conditioned(x):
    """entries are multiples of 1/1000, so a singular matrix is one exactly; but nearly singular ones are skipped"""
    det, rank, inv = gauss(x)
    if inv is not None:
        return size([[float(v) for v in r] for r in inv]) < 1e3 and abs(det) > F(1, 10 ** 4)
    return True


def lowrank(d, n, m):
    """integers, rank below min(n, m) or full"""
    r = d.int(1, 2)
    a = [[float(d.int(-2, 2)) for _ in range(r)] for _ in range(n)]
    b = [[float(d.int(-2, 2)) for _ in range(m)] for _ in range(r)]
    return mul(a, b)


def inverse(d):
    if d.chance(2, 3):
        x = shape(d, True)
        bad = {c for c in shaped(24070)(x)}
        if not bad:
            if d.chance(1, 4):
                x = lowrank(d, len(x), len(x[0]))
            det, rank, inv = gauss(x)
            exactish = inv is not None or all(v == int(v) for v in cells(x))
            if not exactish or not conditioned(x):
                x = [[2.0, 1.0], [1.0, 1.0]]
        errs(d, "la.inverse", [MA], MA, [x], bad, lambda x: x, eq=lambda g, w: isinverse(x, g))
    else:
        n = d.int(0, 3)
        ck = d.sample(KEYS, d.int(0, 3) if d.chance(1, 5) else n)
        x = smat(d, d.sample(KEYS, n), ck)
        for r in x.values():
            for c in list(r):
                r[c] = float(round(r[c]))
        bad = set() if x and cols(x) else {24070}
        rk, ckk = sorted(rows(x)), sorted(cols(x))
        if not bad and not conditioned([[get(x, i, j) for j in ckk] for i in rk]):
            x = {"a": {"b": 2.0}}
            rk, ckk = ["a"], ["b"]

        def eq(g, w):
            if sorted(g) != ckk or any(sorted(r) != rk for r in g.values()):
                return False
            return isinverse([[get(x, i, j) for j in ckk] for i in rk], [[g[j][i] for i in rk] for j in ckk])
        errs(d, "la.inverse", [MM], MM, [x], bad, lambda x: x, eq=eq)


SUBS.append(Sub("la.inverse", inverse, 400, 12000))


def tracecase(d):
    if d.bool():
        x = shape(d)
        bad = {24080} if x and isragged(x) else set()
        errs(d, "la.trace", [MA], D, [x], bad, lambda x: float(sum(F(x[i][i]) for i in range(min(len(x), len(x[0]) if x else 0)))))
    else:
        x = smat(d)
        check_call(d, "la.trace", [MM], D, [x], lambda x: float(sum(F(get(x, i, i)) for i in x)))


SUBS.append(Sub("la.trace", tracecase, 240, 6000))


def detcase(d):
    if d.chance(2, 3):
        x = shape(d, True)
        bad = shaped(24090, True)(x)
        if not bad and d.chance(1, 5):
            x = lowrank(d, len(x), len(x))
        if not bad:
            spoil(d, x)
        errs(d, "la.det", [MA], D, [x], bad, lambda x: float("nan") if nonfinite(cells(x)) else float(gauss(x)[0]), abs_=1e-9 * size(x if not nonfinite(cells(x)) else [[1.0]]) ** 4)
    else:
        x = spoil(d, smat(d))
        bad = set() if x and cols(x) else {24090}
        ks = sorted(rows(x) | cols(x))
        errs(d, "la.det", [MM], D, [x], bad, lambda x: float("nan") if nonfinite(cells(x)) else float(gauss([[get(x, i, j) for j in ks] for i in ks])[0]),
             abs_=1e-9 * 30.0 ** 4)


SUBS.append(Sub("la.det", detcase, 400, 12000))


def near(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return a == b
    return abs(a - b) < tol


def symcase(d):
    tol = d.choice([1e-6, 0.5, 2.0, 1e-3, 0.0])
    if d.chance(2, 3):
        x = shape(d, True)
        bad = shaped(24100, True)(x)
        if not bad and d.chance(3, 4):
            for i in range(len(x)):
                for j in range(i):
                    x[i][j] = x[j][i] + d.choice([0, 0, 0, 0, tol / 2, tol * 2, tol])
            if d.chance(1, 5):
                i, j = d.below(len(x)), d.below(len(x))
                x[i][j] = special(d)
                if d.bool():
                    x[j][i] = x[i][j]
        errs(d, "la.symmetric", [MA, D], "boolean", [x, tol], bad, lambda x, t: all(near(x[i][j], x[j][i], t) for i in range(len(x)) for j in range(len(x))))
    else:
        x = spoil(d, smat(d))
        if d.chance(2, 3):
            for i in list(x):
                for j in list(x[i]):
                    if x[i][j] == 0.0 and d.bool():
                        del x[i][j]
                    elif i != j:
                        x.setdefault(j, {})[i] = x[i][j] + d.choice([0, 0, 0, 0, tol / 2, tol * 2])
        bad = set() if x and cols(x) else {24100}
        ks = sorted(rows(x) | cols(x))
        errs(d, "la.symmetric", [MM, D], "boolean", [x, tol], bad, lambda x, t: all(near(get(x, i, j), get(x, j, i), t) for i in ks for j in ks))


SUBS.append(Sub("la.symmetric", symcase, 400, 12000))


# ---- eigenbasis: B C B' = diag(sign of eigenvalues), rows of B ordered by falling |eigenvalue|, B'B C-conjugate orthogonality

def eigcase(d):
    n = d.int(1, 4)
    k = d.below(6)
    sparse = d.chance(1, 3)
    if k == 0 and not sparse:
        x = shape(d, True)
        bad = shaped(24110, True)(x)
        if bad:
            errs(d, "la.eigenBasis", [MA], MA, [x], bad, None)
            return
    if k == 1:
        x = mat(d, n, n)
        x[d.below(n)][d.below(n)] = special(d)
        if sparse:
            errs(d, "la.eigenBasis", [MM], MM, [tosparse(x)], {24113}, None)
        else:
            errs(d, "la.eigenBasis", [MA], MA, [x], {24113}, None)
        return
    if sparse and k == 2:
        errs(d, "la.eigenBasis", [MM], MM, [d.choice([{}, {"a": {}}, {"a": {}, "b": {}}])], {24110}, None)
        return
    # positive definite, equal eigenvalues likely
    x = [[float(d.choice([1, 2])) if i == j else 0.0 for j in range(n)] for i in range(n)]
    if d.bool():
        x = [[x[0][0] if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(d.below(n + 1)):
        v = [float(d.int(-2, 2)) for _ in range(n)]
        for i in range(n):
            for j in range(n):
                x[i][j] += v[i] * v[j]
    neg = d.chance(1, 5)
    if neg:
        x = [[-v for v in r] for r in x]
    given = [list(r) for r in x]
    if d.bool():            # only the symmetric part counts
        for i in range(n):
            for j in range(i):
                e = num(d)
                given[i][j] += e
                given[j][i] -= e
    d.note({"x": given, "sparse": sparse})
    d.sut()
    if sparse:
        arg = tosparse(given)
        for r in list(arg):
            for c in list(arg[r]):
                if arg[r][c] == 0.0 and d.bool():
                    del arg[r][c]
        if not cols(arg):
            arg = {"a": {"a": x[0][0]}}
            x = [[x[0][0]]]
            n = 1
        if not (rows(arg) | cols(arg)) == set(KEYS[:n]):
            return
        got = libcall("la.eigenBasis", [MM], MM)(arg)
    else:
        got = libcall("la.eigenBasis", [MA], MA)(given)
    if got[0] != "ok":
        raise Violation("la.eigenBasis(%s): %s" % (show(given), got))
    b = got[1]
    if sparse:
        if sorted(b) != [str(i) for i in range(n)] or any(sorted(r) != list(KEYS[:n]) for r in b.values()):
            raise Violation("la.eigenBasis(%s) has the wrong keys: %s" % (show(given), show(b)))
        b = [[b[str(i)][KEYS[j]] for j in range(n)] for i in range(n)]
    if len(b) != n or any(len(r) != n for r in b) or nonfinite(cells(b)):
        raise Violation("la.eigenBasis(%s): %s" % (show(given), show(b)))
    T = [list(c) for c in zip(*b)]
    one = mul(mul(b, x), T)
    want = [[(-1.0 if neg else 1.0) if i == j else 0.0 for j in range(n)] for i in range(n)]
    if not closemat(one, want, 1e-7):
        raise Violation("la.eigenBasis(%s) = B = %s, but B C B' = %s is not the identity" % (show(given), show(b), show(one)))
    # rows are eigenvectors: x r = lambda r with |lambda| = 1/|r|^2; falling
    lam = []
    for r in b:
        l = (-1.0 if neg else 1.0) / sum(v * v for v in r)
        lam.append(abs(l))
        xr = [sum(x[i][j] * r[j] for j in range(n)) for i in range(n)]
        if any(abs(p - l * q) > 1e-7 * size(x) for p, q in zip(xr, r)):
            raise Violation("la.eigenBasis(%s): %s is not an eigenvector" % (show(given), r))
    if any(a < b2 - 1e-7 * size(x) for a, b2 in zip(lam, lam[1:])):
        raise Violation("la.eigenBasis(%s): the eigenvalues %s do not fall" % (show(given), lam))
    d.nontrivial(repr((given, sparse)))
    d.label("%d" % n)


SUBS.append(Sub("la.eigenBasis", eigcase, 500, 15000))


def trunc(d):
    if d.bool():
        x = shape(d)
        k = d.int(-1, 5)
        errs(d, "la.truncate", [MA, "int"], MA, [x, k], shaped(24120)(x), lambda x, k: x[:max(0, k)])
    else:
        x = smat(d)
        keep = d.sample(KEYS, d.below(4))
        bad = set() if x and cols(x) else {24120}
        errs(d, "la.truncate", [MM, {"type": "array", "items": "string"}], MM, [x, keep], bad, lambda x, k: {i: r for i, r in x.items() if i in k})


SUBS.append(Sub("la.truncate", trunc, 240, 6000))
