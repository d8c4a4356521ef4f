"""Residuals, pulls, Mahalanobis distances and chi-squared bookkeeping: shared by stat.test and model.reg."""
import math
from fractions import Fraction as F

import mathref as M
from runner import Sub
from engines import Err, check_call

D, I = "double", "int"
AD, MD = {"type": "array", "items": D}, {"type": "map", "values": D}
AAD, MMD = {"type": "array", "items": AD}, {"type": "map", "values": MD}
INF, NAN = float("inf"), float("nan")


def div(a, b):
    a, b = float(a), float(b)
    if b == 0:
        return NAN if a == 0 or a != a else (INF if a > 0 else -INF)
    return a / b


def num(d):
    c = d.below(12)
    if c == 0:
        return d.choice([INF, -INF, NAN])
    if c == 1:
        return d.choice([0.0, -0.0, 1e300, -1e-300])
    return d.finite(10)


def elem(d):
    """the declared type of the numbers: wherever a double is asked for, an int, long or float will do"""
    return d.weighted([(6, D), (1, I), (1, "long"), (1, "float")])


def value(d, e):
    return num(d) if e == D else (d.smallint(20) if e in (I, "long") else d.smallint(40) / 4.0)


def shapes(d, n, code_for):
    """n aligned scalars, arrays or maps; sometimes one of 2..n is misaligned -> (types, args, error code or None)"""
    kind = d.below(3)
    e = [elem(d) for _ in range(n)]
    if kind == 0:
        return 0, e, [value(d, x) for x in e], None
    k = d.int(0, 4)
    keys = d.sample(["a", "b", "c", "", "z"], k)
    args = []
    for x in e:
        vs = [value(d, x) for _ in range(k)]
        args.append(vs if kind == 1 else dict(zip(d.shuffle(keys), vs)))
    code = None
    if d.chance(1, 3):
        i = d.int(1, n - 1)
        code = code_for(i)
        v = value(d, e[i])
        if kind == 1:
            args[i] = args[i][:-1] if d.bool() and k else args[i] + [v]
        else:
            how = d.below(3) if k else 0
            if how == 0:
                args[i]["new"] = v
            elif how == 1:
                del args[i][keys[0]]
            else:
                del args[i][keys[0]]
                args[i]["new"] = v
    types = [{"type": "array", "items": x} if kind == 1 else {"type": "map", "values": x} for x in e]
    return kind, types, args, code


def apply(kind, fn, args):
    if kind == 0:
        return fn(*args)
    if kind == 1:
        return [fn(*xs) for xs in zip(*args)]
    return {k: fn(*[a[k] for a in args]) for k in args[0]}


def subs(prefix, base, dof, stat):
    """base: error code bases of residual, pull, mahalanobis, chi2Prob"""
    RET = [D, AD, MD]

    def residual(d):
        kind, types, args, code = shapes(d, 2, lambda i: base[0])

        def ref(*a):
            if code:
                raise Err(code)
            return apply(kind, lambda o, p: float(o) - float(p), args)
        check_call(d, prefix + "residual", types, RET[kind], args, ref)

    def pull(d):
        kind, types, args, code = shapes(d, 3, lambda i: base[1] + i - 1)
        if d.chance(1, 3) and kind == 0:
            args[2] = 0.0 if types[2] in (D, "float") else 0
        if kind and args[2] and d.chance(1, 3):
            k = d.choice(sorted(args[2])) if kind == 2 else d.below(len(args[2]))
            args[2][k] = type(args[2][k])(0)

        def ref(*a):
            if code:
                raise Err(code)
            return apply(kind, lambda o, p, u: div(float(o) - float(p), u), args)
        check_call(d, prefix + "pull", types, RET[kind], args, ref)

    def mahalanobis(d):
        k = d.int(0, 4) if d.chance(1, 6) else d.int(1, 4)
        o, p = [d.finite(10) for _ in range(k)], [d.finite(10) for _ in range(k)]
        how = d.below(8)
        A = [[float(d.smallint(4)) for _ in range(k)] for _ in range(k)]
        C = [[sum(A[i][m] * A[j][m] for m in range(k)) + (d.choice([1.0, 1.0]) if i == j else 0.0) for j in range(k)] for i in range(k)]
        singular = negative = False
        if how == 0 and k:                       # singular: one row and column of zeros, or all zeros
            z = d.below(k)
            C = [[0.0 if z in (i, j) else C[i][j] for j in range(k)] for i in range(k)]
            singular = True
        elif how == 1 and k:
            C = [[-x for x in r] for r in C]
            negative = True
        kind = d.int(1, 2)
        code = None
        if k == 0:
            code = base[2]
        bad = d.below(8)
        keys = d.sample(["a", "b", "c", "", "z"], k)
        if kind == 1:
            args = [list(o), list(p), [list(r) for r in C]]
            if bad == 0:
                args[1] = p + [1.0]
                code = code or base[2] + 1
            elif bad == 1 and k:
                args[2] = d.choice([C[:-1], C + [[0.0] * k], [r + [0.0] for r in C], C[:-1] + [C[-1][:-1]], C[:-1] + [C[-1] + [1.0]]])
                code = code or base[2] + 2
            types = [AD, AD, AAD]
        else:
            args = [dict(zip(keys, o)), dict(zip(keys, p)), {a: {b: C[i][j] for j, b in d.shuffle(list(enumerate(keys)))} for i, a in enumerate(keys)}]
            if bad == 0:
                if k and d.bool():
                    del args[1][keys[0]]
                    if d.bool():
                        args[1]["new"] = 1.0
                else:
                    args[1]["new"] = 1.0
                code = code or base[2] + 1
            elif bad == 1 and k:
                del args[2][keys[0]]
                code = code or base[2] + 2
            elif bad == 2 and k:
                del args[2][keys[-1]][keys[0]]
                code = code or base[2] + 2
            types = [MD, MD, MMD]

        def ref(*a):
            if code:
                raise Err(code)
            if singular:
                return NAN
            x = [F(a) - F(b) for a, b in zip(o, p)]
            y = solve([[F(c) for c in r] for r in C], x)
            q = sum(a * b for a, b in zip(x, y))
            return math.sqrt(q) if q >= 0 else NAN
        check_call(d, prefix + "mahalanobis", types, D, args, ref, rel=1e-6, abs_=1e-9)
        d.label("singular" if singular else ("negative" if negative else "positive"))

    def chi2(d):
        rec = {"type": "record", "name": "Chi", "fields": d.shuffle([{"name": "chi2", "type": D}, {"name": dof, "type": I}] +
                                                                     ([{"name": "mine", "type": "string"}] if d.bool() else []))}
        extra = {"mine": "x"} if len(rec["fields"]) == 3 else {}
        st = dict(extra, chi2=0.0 if d.bool() else abs(d.finite(100)), **{dof: 0 if d.bool() else d.int(0, 50)})
        tot, n = F(st["chi2"]), st[dof]
        for _ in range(d.int(1, 6)):
            kind, types, args, _ = shapes(d, 2, lambda i: 0)
            x = args[0]
            vals = [x] if kind == 0 else (list(x) if kind == 1 else list(x.values()))
            finite = all(not isinstance(v, float) or (v == v and abs(v) < 1e100) for v in vals)
            before = st

            def ref(*a):
                s = float(before["chi2"])
                for v in vals:
                    s += float(v) * float(v)
                return dict(before, chi2=s, **{dof: before[dof] + 1})
            got = check_call(d, prefix + "updateChi2", [types[0], rec], rec, [x, st], ref, rel=1e-9)
            st = got[1]
        check_call(d, prefix + "reducedChi2", [rec], D, [st], lambda s: div(s["chi2"], s[dof]))
        prob(d, rec, st)

    def prob(d, rec, st):
        c, n = st["chi2"], st[dof]

        def ref(s):
            if n < 0:
                raise Err(base[3])
            if n == 0:
                return 1.0 if c > 0 else 0.0
            if c != c:
                return c
            if c in (INF, -INF):
                return 1.0 if c > 0 else 0.0
            return float(M.gammap(n / 2.0, c / 2.0)) if c > 0 else 0.0
        if n == 0 and c != c:
            return
        check_call(d, prefix + "chi2Prob", [rec], D, [st], ref, rel=1e-8, abs_=1e-12)

    def forms(d):
        rec = {"type": "record", "name": "Chi", "fields": [{"name": "chi2", "type": D}, {"name": dof, "type": I}]}
        n = d.choice([0, 1, 2, 3, -1, -5]) if d.chance(1, 3) else d.int(1, 60)
        c = d.choice([INF, -INF, NAN, 0.0, -1.0]) if d.chance(1, 4) else max(n, 1) * d.int(1, 3000) / 1000.0
        st = {"chi2": c, dof: n}
        check_call(d, prefix + "reducedChi2", [rec], D, [st], lambda s: div(s["chi2"], s[dof]))
        prob(d, rec, st)

    return [Sub("residual", residual, 250, 6000), Sub("pull", pull, 300, 8000), Sub("mahalanobis", mahalanobis, 300, 8000),
            Sub("chi2 stream", chi2, 150, 4000), Sub("chi2 forms", forms, 150, 4000)]


def solve(A, b):
    n = len(b)
    m = [list(r) + [x] for r, x in zip(A, b)]
    for c in range(n):
        p = next(r for r in range(c, n) if m[r][c] != 0)
        m[c], m[p] = m[p], m[c]
        for r in range(n):
            if r != c and m[r][c]:
                f = m[r][c] / m[c][c]
                m[r] = [a - f * b for a, b in zip(m[r], m[c])]
    return [m[i][n] / m[i][i] for i in range(n)]
