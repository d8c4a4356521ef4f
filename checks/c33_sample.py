"""C33: incremental statistics against batch formulas."""
import copy
import json
import math
from fractions import Fraction as F

from pbt import Violation, close, show
from runner import Sub
from engines import Err, libcall, refoutcome, compare_outcomes, build, outcome

RULE = ("stream cases: one weighted stream fed item by item, every intermediate state compared with the batch formula on the prefix; step cases: one call from an arbitrary state; "
        "non-trivial = the stream has at least three items, or a step call with its reference outcome computed; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["batch formulas are evaluated exactly (rationals) for finite data; tolerance 1e-9 relative to the largest magnitude in the stream",
               "step cases with non-finite or zero-count states follow the documented recurrences in IEEE arithmetic with PFA division",
               "the bin of a value within rounding distance of a bin edge may be either neighbour, but a value inside the histogram's limits is always counted in exactly one bin"]
FACTOR = {"quick": 2, "thorough": 8}
D, I = "double", "int"
INF, NAN = float("inf"), float("nan")


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else (INF if a > 0 else -INF)
    return a / b


def rec(name, fields):
    return {"type": "record", "name": name, "fields": [{"name": n, "type": t} for n, t in fields]}


def fields_of(d, names, extra=True):
    """a record layout with the fields in any order and fields of the user's own"""
    fs = list(names)
    if extra and d.bool():
        fs.append(("mine", d.choice(["string", "int", {"type": "array", "items": "double"}])))
    return d.shuffle(fs)


def mine(d, fs):
    for n, t in fs:
        if n == "mine":
            return {"mine": "keep" if t == "string" else (7 if t == "int" else [1.5])}
    return {}


def call(d, fcn, params, ret, args, **kw):
    d.sut()
    return libcall(fcn, params, ret, **kw)(*args)


def val(d, fcn, params, ret, args, **kw):
    got = call(d, fcn, params, ret, args, **kw)
    if got[0] != "ok":
        raise Violation("%s%s: got %s, expected a value" % (fcn, show(args), show(got)))
    return got[1]


def check(d, fcn, params, ret, args, ref, tol=1e-12, rel=1e-9, eq=None, **kw):
    d.note({"fcn": fcn, "params": params, "args": args})
    got = call(d, fcn, params, ret, args, **kw)
    want = refoutcome(ref)
    compare_outcomes(fcn, args, got, want, eq, rel, tol)
    d.nontrivial(repr((fcn, params, args)))
    d.label("ok" if got[0] == "ok" else "err %s" % got[1])
    return got


def stream(d, lo=1, hi=12):
    scale = d.choice([1.0, 10.0, 1000.0, 1e6, 1e-4])
    offset = d.choice([0.0, 0.0, 100.0, -3.0]) * scale
    unit = d.bool()
    n = d.int(lo, hi)
    return [(d.finite(10) * scale + offset, 1.0 if unit else d.choice([1.0, 0.5, 2.0, 0.25, 3.0, d.int(1, 1000) / 100.0])) for _ in range(n)]


def numtype(d, xs):
    """the declared type of a numeric parameter: int and float literals can both stand for a double"""
    return D


def moments(items):
    w = sum(F(w) for x, w in items)
    m = sum(F(x) * F(w) for x, w in items) / w
    v = sum((F(x) - m) ** 2 * F(w) for x, w in items) / w
    return float(w), float(m), float(v)


def anynum(d):
    c = d.below(8)
    return d.choice([INF, -INF, NAN, 0.0, 1e200, -1e-200]) if c == 0 else d.finite(10)


# ------------------------------------------------------------------ update

def update_stream(d):
    level = d.below(3)
    names = [("count", D), ("mean", D), ("variance", D)][:level + 1]
    fs = fields_of(d, names)
    items = stream(d)
    t = rec("State", fs)
    st = dict({n: 0.0 for n, _ in names}, **mine(d, fs))
    d.note({"fields": fs, "items": items})
    scale = max(abs(x) for x, _ in items) or 1.0
    for i, (x, w) in enumerate(items):
        before = copy.deepcopy(st)
        new = val(d, "stat.sample.update", [D, D, t], t, [x, w, st])
        if st != before:
            raise Violation("stat.sample.update modified the earlier state %s" % show(before))
        c, m, v = moments(items[:i + 1])
        want = dict(mine(d, fs), count=c)
        if level > 0:
            want["mean"] = m
        if level > 1:
            want["variance"] = v
        for k in want:
            tol = {"count": 1e-9, "mean": 1e-9 * scale, "variance": 1e-9 * scale * scale}.get(k, 0)
            if not close(new[k], want[k], 1e-9, tol):
                raise Violation("after %s, field %s is %s and the data's is %s" % (items[:i + 1], k, show(new[k]), show(want[k])))
        if set(new) != set(want):
            raise Violation("fields %s, expected %s" % (sorted(new), sorted(want)))
        st = new
    if len(items) >= 3:
        d.nontrivial(repr((fs, items)))
    d.label("level %d" % level)


def update_step(d):
    level = d.below(3)
    names = [("count", D), ("mean", D), ("variance", D)][:level + 1]
    t = rec("State", fields_of(d, names, False))
    st = {n: (abs(anynum(d)) if n != "mean" else anynum(d)) for n, _ in names}
    if d.chance(1, 3):
        st["count"] = 0.0
    x, w = anynum(d), d.choice([0.0, 1.0, 0.5, -1.0, anynum(d)])

    def ref():
        c = st["count"] + w
        out = {"count": c}
        if level:
            delta = x - st["mean"]
            shift = div(delta * w, c)
            out["mean"] = st["mean"] + shift
        if level > 1:
            out["variance"] = div(st["variance"] * st["count"] + st["count"] * delta * shift, c)
        return out
    check(d, "stat.sample.update", [D, D, t], t, [x, w, st], ref, tol=1e-9)


def cov_array(d):
    k = d.int(2, 4)
    fs = fields_of(d, [("count", D), ("mean", {"type": "array", "items": D}), ("covariance", {"type": "array", "items": {"type": "array", "items": D}})])
    t = rec("State", fs)
    AD = {"type": "array", "items": D}
    items = [([d.finite(10) for _ in range(k)], d.choice([1.0, 1.0, 0.5, 2.0])) for _ in range(d.int(1, 7))]
    st = dict(mine(d, fs), count=0.0, mean=[0.0] * k, covariance=[[0.0] * k for _ in range(k)])
    d.note({"items": items})
    for n in range(1, len(items) + 1):
        x, w = items[n - 1]
        before = copy.deepcopy(st)
        new = val(d, "stat.sample.updateCovariance", [AD, D, t], t, [x, w, st])
        if st != before:
            raise Violation("updateCovariance modified the earlier state")
        W = sum(F(w) for _, w in items[:n])
        m = [sum(F(x[i]) * F(w) for x, w in items[:n]) / W for i in range(k)]
        want = dict(mine(d, fs), count=float(W), mean=[float(z) for z in m],
                    covariance=[[float(sum(F(w) * (F(x[i]) - m[i]) * (F(x[j]) - m[j]) for x, w in items[:n]) / W) for j in range(k)] for i in range(k)])
        if not close(new, want, 1e-9, 1e-7):
            raise Violation("updateCovariance after %s: got %s, expected %s" % (items[:n], show(new), show(want)))
        st = new
    if len(items) >= 3:
        d.nontrivial(repr(items))


def cov_map(d):
    keys = ["a", "b", "c", "d"][:d.int(2, 4)]
    M, MM = {"type": "map", "values": D}, {"type": "map", "values": {"type": "map", "values": D}}
    fs = fields_of(d, [("count", MM), ("mean", M), ("covariance", MM)])
    t = rec("State", fs)
    complete = d.bool()
    items = []
    for _ in range(d.int(1, 6)):
        ks = keys if complete else d.sample(keys, d.int(2, len(keys)))
        items.append(({k: d.finite(10) for k in ks}, d.choice([1.0, 1.0, 0.5, 2.0])))
    st = dict(mine(d, fs), count={}, mean={}, covariance={})
    C, MU, V = {}, {}, {}                                   # exact pairwise recurrences
    d.note({"items": items})
    for n in range(1, len(items) + 1):
        x, w = items[n - 1]
        w = F(w)
        before = copy.deepcopy(st)
        new = val(d, "stat.sample.updateCovariance", [M, D, t], t, [x, float(w), st])
        if st != before:
            raise Violation("updateCovariance modified the earlier state")
        xx = {k: F(v) for k, v in x.items()}
        for i in xx:
            for j in xx:
                c0 = C.get((i, j), F(0))
                c1 = c0 + w
                V[i, j] = (V.get((i, j), F(0)) * c0 + (xx[i] - MU.get(i, F(0))) * (xx[j] - MU.get(j, F(0))) * w * c0 / c1) / c1
        for i in xx:
            for j in xx:
                C[i, j] = C.get((i, j), F(0)) + w
        for i in xx:
            MU[i] = MU.get(i, F(0)) + (xx[i] - MU.get(i, F(0))) * w / C[i, i]
        seen = sorted(MU)
        want = dict(mine(d, fs), count={i: {j: float(C.get((i, j), 0)) for j in seen} for i in seen}, mean={i: float(MU[i]) for i in seen},
                    covariance={i: {j: float(V.get((i, j), 0)) for j in seen} for i in seen})
        if not close(new, want, 1e-9, 1e-7):
            raise Violation("updateCovariance after %s: got %s, expected %s" % (items[:n], show(new), show(want)))
        # each key's own variance, and every entry when no key is ever missing, is the batch value
        for i in seen:
            sub = [(xx[i], w) for xx, w in items[:n] if i in xx]
            c, m, v = moments(sub)
            if not close([new["count"][i][i], new["mean"][i], new["covariance"][i][i]], [c, m, v], 1e-9, 1e-7):
                raise Violation("updateCovariance: key %s of %s: got %s, expected %s" % (i, items[:n], show(new), show((c, m, v))))
        if complete:
            W = sum(F(w) for _, w in items[:n])
            for i in seen:
                for j in seen:
                    e = float(sum(F(w) * (F(x[i]) - MU[i]) * (F(x[j]) - MU[j]) for x, w in items[:n]) / W)
                    if not close(new["covariance"][i][j], e, 1e-9, 1e-7):
                        raise Violation("updateCovariance: entry %s,%s of %s" % (i, j, items[:n]))
        st = new
    if len(items) >= 3:
        d.nontrivial(repr(items))
    d.label("complete" if complete else "missing keys")


def cov_errors(d):
    if d.bool():
        t = rec("State", [("count", D), ("mean", {"type": "array", "items": D}), ("covariance", {"type": "array", "items": {"type": "array", "items": D}})])
        k = d.int(0, 3)
        km, kc = d.choice([k, k, d.int(0, 4)]), d.choice([k, k, d.int(0, 4)])
        rows = [d.choice([kc, kc, kc, d.int(0, 4)]) for _ in range(d.choice([kc, kc, d.int(0, 4)]))]
        x = [d.finite() for _ in range(k)]
        st = {"count": 2.0, "mean": [0.0] * km, "covariance": [[0.0] * n for n in rows]}

        def ref():
            if k < 2:
                raise Err(14011)
            if km != k or len(rows) != k or any(n != k for n in rows):
                raise Err(14012)
            return {"count": 3.0, "mean": [xi / 3.0 for xi in x], "covariance": [[xi * xj * 2.0 / 9.0 for xj in x] for xi in x]}
        check(d, "stat.sample.updateCovariance", [{"type": "array", "items": D}, D, t], t, [x, 1.0, st], ref)
    else:
        M, MM = {"type": "map", "values": D}, {"type": "map", "values": {"type": "map", "values": D}}
        t = rec("State", [("count", MM), ("mean", M), ("covariance", MM)])
        k = d.int(0, 2)
        x = {"k%d" % i: d.finite() for i in range(k)}

        def ref():
            if k < 2:
                raise Err(14011)
            return {"count": {i: {j: 1.0 for j in x} for i in x}, "mean": x, "covariance": {i: {j: 0.0 for j in x} for i in x}}
        check(d, "stat.sample.updateCovariance", [M, D, t], t, [x, 1.0, {"count": {}, "mean": {}, "covariance": {}}], ref)


# ------------------------------------------------------------------ window

def window(d):
    level = d.below(3)
    names = [("x", D), ("w", D), ("count", D), ("mean", D), ("variance", D)][:level + 3]
    fs = d.shuffle(list(names))
    t = rec("State", fs)
    AT = {"type": "array", "items": t}
    items = stream(d, 1, 14)
    size = d.int(2, 6)
    st = []
    scale = max(abs(x) for x, _ in items) or 1.0
    d.note({"fields": fs, "items": items, "size": size})
    held = []
    changed = False
    for n, (x, w) in enumerate(items):
        if d.chance(1, 8):
            size = d.int(2, 6)
            changed = True
        before = copy.deepcopy(st)
        new = val(d, "stat.sample.updateWindow", [D, D, AT, I], AT, [x, w, st, size])
        if st != before:
            raise Violation("updateWindow modified the earlier state")
        held = (held + [(x, w)])[-size:]
        if [(r["x"], r["w"]) for r in new] != held:
            raise Violation("updateWindow of size %d after %s holds %s, expected %s" % (size, items[:n + 1], show(new), held))
        c, m, v = moments(held)
        last = new[-1]
        want = {"count": c, "mean": m, "variance": v}
        for k in [n for n, _ in names[2:]]:
            tol = {"count": 1e-8, "mean": 1e-8 * scale, "variance": 1e-7 * scale * scale}[k]
            if not close(last[k], want[k], 1e-8, tol):
                raise Violation("updateWindow: after %s (window %s), %s is %r, expected %r" % (items[:n + 1], held, k, last[k], want[k]))
        for old, kept in zip(before[-(len(new) - 1):] if len(new) > 1 else [], new[:-1]):
            if old != kept:
                raise Violation("updateWindow changed the history: %s became %s" % (show(old), show(kept)))
        st = new
    if len(items) >= 3:
        d.nontrivial(repr((fs, items, size)))
    d.label("level %d%s" % (level, " size changed" if changed else ""))


def window_errors(d):
    odd = d.bool()
    fs = d.shuffle([("x", D), ("w", D), ("count", D)] + ([("other", d.choice([D, "string"]))] if odd else []))
    t = rec("State", fs)
    AT = {"type": "array", "items": t}
    size = d.choice([-1, 0, 1, 2, 3, -2**31])
    empty = d.bool()
    r = {"x": 1.0, "w": 1.0, "count": 1.0}
    if odd:
        r["other"] = 1.0 if dict(fs)["other"] == D else "a"
    st = [] if empty else [r]

    def ref():
        if size < 2:
            raise Err(14020)
        if empty and odd:
            raise Err(14021)
        return [{"x": 3.0, "w": 2.0, "count": 2.0}] if empty else [r, dict(r, x=3.0, w=2.0, count=3.0)]
    check(d, "stat.sample.updateWindow", [D, D, AT, I], AT, [3.0, 2.0, st, size], ref)


# ------------------------------------------------------------------ exponentially weighted

def ewma(d):
    var = d.bool()
    fs = fields_of(d, [("mean", D)] + ([("variance", D)] if var else []))
    t = rec("State", fs)
    if d.chance(1, 3):                                       # any state, any parameter
        st = dict(mine(d, fs), mean=anynum(d), **({"variance": abs(anynum(d))} if var else {}))
        x, alpha = anynum(d), d.choice([0.0, 1.0, 0.3, -0.1, 1.1, -1e-9, 1.0000001, INF, -INF, d.unit()])

        def ref():
            if alpha < 0 or alpha > 1:
                raise Err(14030)
            out = dict(st, mean=st["mean"] + alpha * (x - st["mean"]))
            if var:
                out["variance"] = (1 - alpha) * (st["variance"] + (x - st["mean"]) * (alpha * (x - st["mean"])))
            return out
        check(d, "stat.sample.updateEWMA", [D, D, t], t, [x, alpha, st], ref, tol=1e-9)
        return
    alpha = d.int(0, 100) / 100.0
    xs = [d.finite(10) for _ in range(d.int(2, 9))]
    st = dict(mine(d, fs), mean=xs[0], **({"variance": 0.0} if var else {}))
    d.note({"alpha": alpha, "xs": xs})
    for n in range(1, len(xs)):
        st = val(d, "stat.sample.updateEWMA", [D, D, t], t, [xs[n], alpha, st])
        # batch: weights alpha (1-alpha)^k, the first item taking the rest
        a = F(alpha)
        ws = [(1 - a) ** n] + [a * (1 - a) ** (n - i) for i in range(1, n + 1)]
        m = sum(w * F(x) for w, x in zip(ws, xs))
        want = dict(mine(d, fs), mean=float(m))
        if var:
            want["variance"] = float(sum(w * (F(x) - m) ** 2 for w, x in zip(ws, xs)))
        if not close(st, want, 1e-9, 1e-8):
            raise Violation("updateEWMA with %r over %s: got %s, expected %s" % (alpha, xs[:n + 1], show(st), show(want)))
    if len(xs) >= 3:
        d.nontrivial(repr((fs, alpha, xs)))


def par(d):
    return d.int(0, 100) / 100.0 if not d.chance(1, 6) else d.choice([0.0, 1.0, -0.1, 1.1, -1e-12, 1 + 1e-12, INF, -INF])


def holtwinters(d):
    fs = fields_of(d, [("level", D), ("trend", D)])
    t = rec("State", fs)
    a, b = par(d), par(d)
    bad = not (0 <= a <= 1 and 0 <= b <= 1)
    st = dict(mine(d, fs), level=anynum(d) if bad else d.finite(), trend=d.finite())
    xs = [d.finite(10) for _ in range(d.int(1, 7))]
    L, T = F(st["level"]) if not bad else 0, F(st["trend"])
    for i, x in enumerate(xs):
        if not bad:
            L2 = F(a) * F(x) + (1 - F(a)) * (L + T)
            T = F(b) * (L2 - L) + (1 - F(b)) * T
            L = L2

        def ref():
            if not 0 <= a <= 1:
                raise Err(14040)
            if not 0 <= b <= 1:
                raise Err(14041)
            return dict(mine(d, fs), level=float(L), trend=float(T))
        got = check(d, "stat.sample.updateHoltWinters", [D, D, D, t], t, [x, a, b, st], ref, tol=1e-8)
        if got[0] != "ok":
            return
        st = got[1]
    n = d.choice([0, 1, 2, 5, -1])
    check(d, "stat.sample.forecast1HoltWinters", [t], D, [st], lambda: st["level"] + st["trend"])
    check(d, "stat.sample.forecastHoltWinters", [I, t], {"type": "array", "items": D}, [n, st], lambda: [st["level"] + k * st["trend"] for k in range(1, n + 1)])


def hw_periodic(d):
    fs = fields_of(d, [("level", D), ("trend", D), ("cycle", {"type": "array", "items": D}), ("multiplicative", "boolean")])
    t = rec("State", fs)
    a, b, g = par(d), par(d), par(d)
    mul = d.bool()
    period = d.choice([0, 1, 2, 3, 4]) if d.chance(1, 5) else d.int(1, 4)
    cyc = [d.int(1, 50) / 10.0 if not d.chance(1, 8) else d.finite() for _ in range(period)]
    st = dict(mine(d, fs), level=d.finite(), trend=d.finite(), cycle=cyc, multiplicative=mul)
    # the reference keeps the seasonal components by phase; the state lists them so that item 1 is the next phase
    phases = list(cyc)                   # phase p's component; the current phase is 0
    now = 0
    L, T = st["level"], st["trend"]
    xs = [d.int(1, 300) / 10.0 if not d.chance(1, 8) else d.finite() for _ in range(d.int(1, 9))]
    d.note({"start": st, "xs": xs, "abg": (a, b, g)})
    for x in xs:
        bad = not (0 <= a <= 1 and 0 <= b <= 1 and 0 <= g <= 1) or not period
        if not bad:
            now = (now + 1) % period
            c = phases[now]
            L2 = (div(a * x, c) if mul else a * (x - c)) + (1 - a) * (L + T)
            T = b * (L2 - L) + (1 - b) * T
            L = L2
            phases[now] = (div(g * x, L) if mul else g * (x - L)) + (1 - g) * c

        def ref():
            for k, z in enumerate([a, b, g]):
                if not 0 <= z <= 1:
                    raise Err(14050 + k)
            if not period:
                raise Err(14053)
            return dict(mine(d, fs), level=L, trend=T, cycle=[phases[(now + i) % period] for i in range(period)], multiplicative=mul)
        got = check(d, "stat.sample.updateHoltWintersPeriodic", [D, D, D, D, t], t, [x, a, b, g, st], ref, tol=1e-8, rel=1e-8)
        if got[0] != "ok":
            break
        st = got[1]
    n = d.choice([0, 1, 2, 5, 9, -1])

    def fc(k, code):
        if not period:
            raise Err(code)
        c = st["cycle"][k % period]
        return (st["level"] + k * st["trend"]) * c if mul else st["level"] + k * st["trend"] + c
    check(d, "stat.sample.forecast1HoltWinters", [t], D, [st], lambda: fc(1, 14060), tol=1e-9)

    def fcs():
        if not period:
            raise Err(14070)
        return [fc(k, 14070) for k in range(1, n + 1)]
    check(d, "stat.sample.forecastHoltWinters", [I, t], {"type": "array", "items": D}, [n, st], fcs, tol=1e-9)


# ------------------------------------------------------------------ histograms

FLOWS = ["underflow", "overflow", "nanflow", "infflow"]


def around(d, low, high, n):
    """values at, next to, between and beyond the edges"""
    c = d.below(10)
    if c == 0:
        return d.choice([INF, -INF, NAN])
    if c == 1:
        return d.choice([low, high])
    if c == 2:
        return low + (high - low) * d.int(0, n) / n
    if c == 3:
        e = d.choice([low, high])
        return e + d.choice([1, -1]) * max(abs(e), 1e-300) * 2.0 ** -d.int(45, 53)
    if c == 4:
        return d.choice([1e300, -1e300, high + (high - low) * d.int(0, 50) / 10.0, low - (high - low)])
    return low + (high - low) * d.unit()


def bins(x, low, high, n):
    """the bins that may hold x: the exact one, and the neighbour when x is within rounding of an edge"""
    pos = (F(x) - F(low)) / (F(high) - F(low)) * n
    out = set()
    eps = F(n) * 8 / 2**52 * (1 + max(abs(F(x)), abs(F(low)), abs(F(high))) / (F(high) - F(low)))
    for p in (pos, pos - eps, pos + eps):
        out.add(min(max(int(p // 1), 0), n - 1))
    return out


def flows(d, names):
    return d.sample(names, d.int(0, len(names))) if not d.chance(1, 3) else list(names)


def same_hist(got, want, what):
    if set(got) != set(want):
        raise Violation("%s has fields %s, expected %s" % (what, sorted(got), sorted(want)))
    for k in want:
        if k != "values" and not close(got[k], want[k], 0, 0):
            raise Violation("%s: field %s is %s, expected %s" % (what, k, show(got[k]), show(want[k])))


def hist_fixed(d):
    n = d.int(1, 6)
    low = d.choice([0.0, -1.0, 0.1, d.finite(10)])
    high = low + d.choice([1.0, 0.3, 10.0, 1e-3, 1e6, d.int(1, 999) / 7.0])
    if d.chance(1, 20):
        low, high = -1.5e308, 1.5e308
    fl = flows(d, FLOWS)
    fs = fields_of(d, [("numbins", I), ("low", D), ("high", D), ("values", {"type": "array", "items": D})] + [(f, D) for f in fl])
    t = rec("Hist", fs)
    vals = [float(d.int(0, 9)) for _ in range(n)]
    h = dict(mine(d, fs), numbins=n, low=low, high=high, values=vals, **{f: float(d.int(0, 5)) for f in fl})
    bad = d.below(12)
    code = None
    if bad == 0:
        h["numbins"], code = d.choice([0, -1, -2**31]), 14082
    elif bad == 1:
        h["values"], code = vals[:-1] if d.bool() else vals + [0.0], 14080
    elif bad == 2:
        h["low"], h["high"] = d.choice([(1.0, 1.0), (2.0, 1.0), (NAN, 1.0), (0.0, NAN), (-INF, 1.0), (0.0, INF), (INF, INF)])
        code = 14081
    for step in range(d.int(1, 4)):
        x, w = around(d, low, high, n), d.choice([1.0, 0.5, 2.0, 0.0, -1.0])
        args = [x, w, h]
        d.note({"args": args})
        got = call(d, "stat.sample.fillHistogram", [D, D, t], t, args)
        d.nontrivial(repr((fs, args)))
        if code is not None:
            compare_outcomes("stat.sample.fillHistogram", args, got, ("err", code))
            d.label("err %d" % code)
            return
        if got[0] != "ok":
            raise Violation("stat.sample.fillHistogram%s: got %s" % (show(args), show(got)))
        want = dict(h)
        if "infflow" in fl and x in (INF, -INF):
            where = "infflow"
        elif x != x:
            where = "nanflow"
        elif x >= high:
            where = "overflow"
        elif x < low:
            where = "underflow"
        else:
            where = None
        if where in fl:
            want[where] = h[where] + w
        same_hist(got[1], want, "fillHistogram%s" % show(args))
        ok = [h["values"]] if where else [[v + w if i == b else v for i, v in enumerate(h["values"])] for b in bins(x, low, high, n)]
        if got[1]["values"] not in ok:
            raise Violation("fillHistogram%s: bins %s, expected %s" % (show(args), show(got[1]["values"]), show(ok)))
        d.label(where or "bin")
        h = got[1]


def hist_growing(d):
    low = d.choice([0.0, -1.0, 0.1, d.finite(10)])
    size = d.choice([1.0, 0.1, 2.5, d.int(1, 999) / 70.0])
    fl = flows(d, FLOWS)
    fs = fields_of(d, [("low", D), ("binsize", D), ("values", {"type": "array", "items": D})] + [(f, D) for f in fl])
    t = rec("Hist", fs)
    h = dict(mine(d, fs), low=low, binsize=size, values=[float(d.int(0, 9)) for _ in range(d.int(0, 4))], **{f: float(d.int(0, 5)) for f in fl})
    bad = d.chance(1, 10)
    if bad:
        h["binsize"] = d.choice([0.0, -1.0, NAN, INF, -INF])
    for step in range(d.int(1, 5)):
        m = max(len(h["values"]), 1)
        x, w = around(d, low, low + size * m, m), d.choice([1.0, 0.5, 2.0, -1.0])
        if x not in (INF, -INF) and x > low + size * (m + 20):
            x = low + size * (m + d.int(0, 200) / 10.0)
        args = [x, w, h]
        d.note({"args": args})
        got = call(d, "stat.sample.fillHistogram", [D, D, t], t, args)
        d.nontrivial(repr((fs, args)))
        if bad:
            compare_outcomes("stat.sample.fillHistogram", args, got, ("err", 14082))
            return
        if got[0] != "ok":
            raise Violation("stat.sample.fillHistogram%s: got %s" % (show(args), show(got)))
        want = dict(h)
        if "infflow" in fl and x in (INF, -INF):
            where = "infflow"
        elif x != x:
            where = "nanflow"
        elif x == INF:
            where = "overflow"
        elif x < low:
            where = "underflow"
        else:
            where = None
        if where in fl:
            want[where] = h[where] + w
        same_hist(got[1], want, "fillHistogram%s" % show(args))
        if where:
            ok = [h["values"]]
        else:
            pos = (F(x) - F(low)) / F(size)
            eps = F(1, 2**46) * (1 + abs(pos) + (abs(F(x)) + abs(F(low))) / F(size))
            ok = []
            for p in (pos, pos - eps, pos + eps):
                b = max(int(p // 1), 0)
                vs = list(h["values"]) + [0.0] * (b + 1 - len(h["values"]))
                vs[b] += w
                ok.append(vs)
        if got[1]["values"] not in ok:
            raise Violation("fillHistogram%s: bins %s, expected %s" % (show(args), show(got[1]["values"]), show(ok)))
        d.label(where or ("grew" if len(got[1]["values"]) > len(h["values"]) else "bin"))
        h = got[1]


def hist_ranges(d):
    n = d.int(0, 4)
    ranges = []
    for _ in range(n):
        lo = float(d.smallint(5))
        ranges.append([lo, lo + d.choice([1.0, 0.5, 3.0])])
    fl = flows(d, FLOWS)
    fs = fields_of(d, [("ranges", {"type": "array", "items": {"type": "array", "items": D}}), ("values", {"type": "array", "items": D})] + [(f, D) for f in fl])
    t = rec("Hist", fs)
    h = dict(mine(d, fs), ranges=ranges, values=[float(d.int(0, 9)) for _ in range(n)], **{f: float(d.int(0, 5)) for f in fl})
    bad = d.below(10)
    code = None
    if bad == 0:
        h["values"] = h["values"] + [0.0]
        code = 14080
    elif bad == 1 and n:
        h["ranges"] = [list(r) for r in ranges]
        h["ranges"][d.below(n)] = d.choice([[1.0], [1.0, 2.0, 3.0], [1.0, 1.0], [2.0, 1.0], [NAN, 1.0], [0.0, NAN], [-INF, 0.0], [0.0, INF], []])
        code = 14083
    for step in range(d.int(1, 3)):
        edges = [e for r in ranges for e in r] + [0.0]
        x = d.choice([INF, -INF, NAN]) if d.chance(1, 6) else d.choice(edges) + d.choice([0.0, 0.0, 0.25, -0.25, 1e-9, -1e-9])
        w = d.choice([1.0, 0.5, 2.0, -1.0])
        args = [x, w, h]

        def ref():
            if code:
                raise Err(code)
            out = dict(h)
            inside = [i for i, (lo, hi) in enumerate(ranges) if lo <= x < hi]
            out["values"] = [v + w if i in inside else v for i, v in enumerate(h["values"])]
            where = None
            if "infflow" in fl and x in (INF, -INF):
                where = "infflow"
            elif x != x:
                where = "nanflow"
            elif not inside:
                where = "underflow"
            if where in fl:
                out[where] = h[where] + w
            return out
        got = check(d, "stat.sample.fillHistogram", [D, D, t], t, args, ref, tol=0, rel=0)
        if got[0] != "ok":
            return
        h = got[1]


FLOWS2 = ["underunderflow", "undermidflow", "underoverflow", "midunderflow", "midoverflow", "overunderflow", "overmidflow", "overoverflow", "nanflow", "infflow"]


def hist2d(d):
    nx, ny = d.int(1, 4), d.int(1, 4)
    xl, yl = d.choice([0.0, d.finite(10)]), d.choice([0.0, -2.0, d.finite(10)])
    xh, yh = xl + d.choice([1.0, 10.0, 0.3]), yl + d.choice([1.0, 5.0, 0.7])
    fl = flows(d, FLOWS2)
    fs = fields_of(d, [("xnumbins", I), ("xlow", D), ("xhigh", D), ("ynumbins", I), ("ylow", D), ("yhigh", D),
                       ("values", {"type": "array", "items": {"type": "array", "items": D}})] + [(f, D) for f in fl])
    t = rec("Hist", fs)
    h = dict(mine(d, fs), xnumbins=nx, xlow=xl, xhigh=xh, ynumbins=ny, ylow=yl, yhigh=yh,
             values=[[float(d.int(0, 9)) for _ in range(ny)] for _ in range(nx)], **{f: float(d.int(0, 5)) for f in fl})
    bad = d.below(12)
    code = None
    if bad == 0:
        h[d.choice(["xnumbins", "ynumbins"])], code = d.choice([0, -1]), 14092
    elif bad == 1:
        code = 14090
        h["values"] = d.choice([h["values"][:-1], h["values"] + [[0.0] * ny], h["values"][:-1] + [h["values"][-1] + [0.0]], h["values"][:-1] + [h["values"][-1][:-1]]])
    elif bad == 2:
        ax = d.choice("xy")
        lo, hi = d.choice([(1.0, 1.0), (2.0, 1.0), (NAN, 1.0), (0.0, NAN), (-INF, 1.0), (0.0, INF)])
        h[ax + "low"], h[ax + "high"], code = lo, hi, 14091
    for step in range(d.int(1, 4)):
        x, y, w = around(d, xl, xh, nx), around(d, yl, yh, ny), d.choice([1.0, 0.5, 2.0, -1.0])
        args = [x, y, w, h]
        d.note({"args": args})
        got = call(d, "stat.sample.fillHistogram2d", [D, D, D, t], t, args)
        d.nontrivial(repr((fs, args)))
        if code:
            compare_outcomes("stat.sample.fillHistogram2d", args, got, ("err", code))
            return
        if got[0] != "ok":
            raise Violation("stat.sample.fillHistogram2d%s: got %s" % (show(args), show(got)))

        def side(v, lo, hi):
            return "over" if v >= hi else ("under" if v < lo else "mid")
        if x != x or y != y:
            where = "nanflow"
        elif "infflow" in fl and (abs(x) == INF or abs(y) == INF):
            where = "infflow"
        else:
            where = side(x, xl, xh) + side(y, yl, yh) + "flow"
        want = dict(h)
        if where in fl:
            want[where] = h[where] + w
        same_hist(got[1], want, "fillHistogram2d%s" % show(args))
        ok = [h["values"]]
        if where == "midmidflow":
            ok = [[[v + w if (i, j) == (a, b) else v for j, v in enumerate(r)] for i, r in enumerate(h["values"])]
                  for a in bins(x, xl, xh, nx) for b in bins(y, yl, yh, ny)]
        if got[1]["values"] not in ok:
            raise Violation("fillHistogram2d%s: bins %s, expected %s" % (show(args), show(got[1]["values"]), show(ok)))
        d.label(where)
        h = got[1]


def badlayout(d):
    """layouts that are no histogram, or that mix two kinds, are refused when the document is loaded"""
    V, R = ("values", {"type": "array", "items": D}), ("ranges", {"type": "array", "items": {"type": "array", "items": D}})
    N, L, H, B = ("numbins", I), ("low", D), ("high", D), ("binsize", D)
    S = "string"
    good = [[N, L, H, V], [L, B, V], [R, V], [L, H, B, V], [N, L, B, V], [L, R, V]]
    bad = [[N, L, H, B, V], [N, L, H, R, V], [L, B, R, V], [N, L, V], [N, H, V], [B, V], [V], [N, L, H], [L, B], [R],
           [N, L, H, V, ("underflow", S)], [L, B, V, ("nanflow", S)], [R, V, ("infflow", S)], [N, L, H, V, ("overflow", S)]]
    isgood = d.bool()
    fs = d.shuffle(list(d.choice(good if isgood else bad)))
    t = rec("Hist", fs)
    doc = {"input": t, "output": "Hist", "action": {"stat.sample.fillHistogram": [1.5, 1.0, "input"]}}
    d.sut()
    from titus.errors import PFASemanticException
    from titus.genpy import PFAEngine
    try:
        PFAEngine.fromJson(doc)
        got = True
    except PFASemanticException:
        got = False
    if got != isgood:
        raise Violation("histogram layout %s was %s" % (json.dumps(fs), "accepted" if got else "refused"))
    d.nontrivial(repr(fs))


# ------------------------------------------------------------------ counters and top lists

def counter(d):
    fs = fields_of(d, [("values", {"type": "map", "values": D})])
    t = rec("Counter", fs)
    st = dict(mine(d, fs), values={k: float(d.int(0, 5)) for k in d.sample(["a", "b", "", u"\u00e9"], d.int(0, 3))})
    ref = dict(st["values"])
    for _ in range(d.int(1, 6)):
        x, w = d.choice(["a", "b", "c", "", u"\u00e9", "self"]), d.choice([1.0, 0.5, -1.0, 2.0])
        ref[x] = ref.get(x, 0.0) + w
        now = dict(ref)
        got = check(d, "stat.sample.fillCounter", ["string", D, t], t, [x, w, st], lambda: dict(mine(d, fs), values=now))
        st = got[1]


def topn(d):
    kind = d.choice(["double", "string", "pair"])
    n = d.choice([1, 2, 3, 5, 0, -1])
    t = {"double": D, "string": "string", "pair": rec("Pair", [("k", I), ("v", I)])}[kind]
    body = {"double": {"<": ["p", "q"]}, "string": {"<": ["p", "q"]}, "pair": {"<": ["p.k", "q.k"]}}[kind]
    key = {"double": lambda x: x, "string": lambda x: x, "pair": lambda x: x["k"]}[kind]
    pt = "Pair" if kind == "pair" else t
    less = ("expr", {"params": [{"p": pt}, {"q": pt}], "ret": "boolean", "do": [body]})
    AT = {"type": "array", "items": t}
    top, seen = [], []
    for i in range(d.int(1, 9)):
        x = {"double": lambda: float(d.smallint(4)), "string": lambda: d.str("abc", 0, 2), "pair": lambda: {"k": d.int(0, 3), "v": i}}[kind]()
        if d.chance(1, 6):
            n = d.choice([1, 2, 3, 5, 0, -1])
        seen = sorted(seen + [x], key=key, reverse=True)[:max(n, 0)]          # stable: earlier items stay first among equals
        want = seen
        got = check(d, "stat.sample.topN", [t, AT, I, less], AT, [x, top, n, None], lambda: want)
        top = got[1]


SUBS = [
    Sub("update stream", update_stream, 250, 6000),
    Sub("update step", update_step, 400, 10000),
    Sub("covariance array", cov_array, 150, 4000),
    Sub("covariance map", cov_map, 200, 4000),
    Sub("covariance errors", cov_errors, 200, 4000),
    Sub("window", window, 250, 6000),
    Sub("window errors", window_errors, 80, 1000),
    Sub("ewma", ewma, 300, 6000),
    Sub("holt-winters", holtwinters, 150, 4000),
    Sub("holt-winters periodic", hw_periodic, 200, 5000),
    Sub("histogram fixed", hist_fixed, 400, 10000),
    Sub("histogram growing", hist_growing, 300, 8000),
    Sub("histogram ranges", hist_ranges, 300, 8000),
    Sub("histogram 2d", hist2d, 400, 10000),
    Sub("histogram layouts", badlayout, 120, 1500),
    Sub("counter", counter, 100, 2000),
    Sub("topN", topn, 150, 3000),
]
