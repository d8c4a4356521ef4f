"""C36: clusters and nearest neighbours against exhaustive search."""
import copy
import math

from pbt import Violation, close, show
from runner import Sub
from engines import Err, UserErr, libcall, refoutcome, compare_outcomes, build, outcome

RULE = ("single calls: the data and the items to search are on a coarse grid (so that ties are common and distances are exact), metrics are the default, generated formulas and library metrics in inline, "
        "referenced and partially filled form; stream cases: clusters kept in a cell and updated by k-means iterations over generated batches; "
        "non-trivial = at least two items to choose from, or an error; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["coordinates are multiples of 1/4 so that squared distances are exact; NaN distances are not generated (no order is documented)",
               "the default metric with vectors of different dimension is only specified for nearestK (an error) and left open elsewhere"]
FACTOR = {"quick": 3, "thorough": 10}
D, I = "double", "int"


def arr(t):
    return {"type": "array", "items": t}


def div(a, b):
    a, b = float(a), float(b)
    if b == 0:
        return float("nan") if a == 0 or a != a else (float("inf") if a > 0 else -float("inf"))
    return a / b


def coord(d):
    return d.int(-4, 4) / d.choice([1.0, 1.0, 2.0, 4.0])


def vec(d, n):
    return [coord(d) for _ in range(n)]


def clusterrec(d, center):
    fs = [("center", center)]
    for n, t in (("id", "string"), ("count", "int"), ("w", D)):
        if n == "id" or d.bool():
            fs.append((n, t))
    return {"type": "record", "name": "Cl", "fields": [{"name": n, "type": t} for n, t in d.shuffle(fs)]}


def clustervals(d, rec, k, mk):
    out = []
    for i in range(k):
        x = {}
        for f in rec["fields"]:
            n = f["name"]
            x[n] = mk() if n == "center" else "c%d" % i if n == "id" else d.int(0, 5) if n == "count" else coord(d)
        out.append(x)
    return out


# each kind: (type of datum, type of item, generator, metric body over a, b; python metric)
def vecmetrics(d):
    w = d.int(-2, 3)
    return d.choice([
        ({"metric.euclidean": [{"fcn": "metric.absDiff"}, "a", "b"]}, lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))),
        ({"metric.taxicab": [{"fcn": "metric.absDiff"}, "a", "b"]}, lambda a, b: sum(abs(x - y) for x, y in zip(a, b))),
        ({"metric.squaredEuclidean": [{"fcn": "metric.absDiff"}, "a", "b"]}, lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b))),
        # not symmetric
        ({"-": [{"a.sum": ["b"]}, {"*": [2, {"a.sum": ["a"]}]}]}, lambda a, b: sum(b) - 2 * sum(a)),
        ({"if": {">": [{"a.sum": ["b"]}, 4]}, "then": {"error": "far", "code": -9}, "else": {"+": [{"a.sum": ["b"]}, w]}}, lambda a, b: boom(sum(b) > 4, sum(b) + w)),
    ])


def boom(c, v):
    if c:
        raise UserErr("far", -9)
    return v


class Search(object):
    """datum type, item type, values, function argument, reference metric"""
    def __init__(self, d, k):
        self.mismatch = False
        self.fcns = None
        self.metric = None
        dim = d.int(0, 4)
        mode = d.below(4)
        if mode == 2:
            dim = max(dim, 1)
        if mode <= 2:
            self.dt = self.it = arr(D)
            self.datum = vec(d, dim)
            self.mk = lambda: vec(d, dim)
            self.items = [self.mk() for _ in range(k)]
            if d.bool() and k > 1:
                self.items[d.below(k)] = list(self.items[0])
            if mode == 2:
                self.it = arr(d.choice([D, D, "int"]))
                if self.it != arr(D):
                    self.items = [[int(x) for x in v] for v in self.items]
                body, self.metric = vecmetrics(d)
                self.arg(d, body)
            elif d.chance(1, 6):
                # whole numbers will do wherever doubles are asked for
                self.dt = arr("int")
                self.datum = [int(x) for x in self.datum]
        else:
            self.dt, self.it = d.choice([("string", I), (I, "string"), (D, D), ("string", "string")])
            gen = lambda t: d.str("ab", 0, 4) if t == "string" else d.int(-3, 3) if t == I else coord(d)
            self.datum, self.items = gen(self.dt), [gen(self.it) for _ in range(k)]
            num = lambda n, t: {"s.len": [n]} if t == "string" else n
            m = lambda v: len(v) if isinstance(v, str) else v
            if d.bool():
                body, self.metric = {"m.abs": [{"-": [num("a", self.dt), num("b", self.it)]}]}, lambda a, b: abs(m(a) - m(b))
            else:
                body, self.metric = {"-": [{"*": [3, num("a", self.dt)]}, num("b", self.it)]}, lambda a, b: 3 * m(a) - m(b)
            self.arg(d, body)

    def arg(self, d, body):
        form = d.below(3)
        f = {"params": [{"a": self.dt}, {"b": self.it}], "ret": D, "do": [body]}
        if form == 0:
            self.expr = ("expr", f)
        elif form == 1:
            self.expr, self.fcns = ("expr", {"fcn": "u.dist"}), {"dist": f}
        else:
            f["params"].insert(d.below(3), {"extra": "string"})
            self.expr, self.fcns = ("expr", {"fcn": "u.dist", "fill": {"extra": {"string": "x"}}}), {"dist": f}

    def distances(self, items):
        if self.metric is not None:
            return [self.metric(self.datum, x) for x in items]
        return [sum((float(a) - float(b)) ** 2 for a, b in zip(self.datum, x)) for x in items]


def run(d, fcn, params, ret, args, ref, k, fcns=None, rel=1e-9):
    d.note({"fcn": fcn, "params": params, "args": args, "fcns": fcns})
    want = refoutcome(ref)
    d.sut()
    keep = copy.deepcopy(args)
    got = libcall(fcn, params, ret, fcns=fcns)(*args)
    if not close(keep, args, 0, 0):
        raise Violation("%s%s changed its arguments" % (fcn, show(keep)))
    if got[0] == "user" or want[0] == "user":
        if tuple(got) != tuple(want):
            raise Violation("%s%s: got %s, expected %s" % (fcn, show(args), show(got), show(want)))
    else:
        compare_outcomes(fcn, args, got, want, rel=rel)
    if k >= 2 or want[0] != "ok":
        d.nontrivial(repr((fcn, params, args)))
    d.label("ok" if want[0] == "ok" else "%s %s" % want[:2])


def ranks(dist):
    return sorted(range(len(dist)), key=lambda i: (dist[i], i))


def closest(d):
    k = d.weighted([(1, 0), (2, 1), (6, d.int(2, 6))])
    s = Search(d, k)
    rec = clusterrec(d, s.it)
    it = iter(s.items)
    cl = clustervals(d, rec, k, lambda: next(it))
    extra = [s.expr] if s.metric is not None else []
    if d.bool():
        def ref():
            if not cl:
                raise Err(29000)
            return cl[ranks(s.distances(s.items))[0]]
        run(d, "model.cluster.closest", [s.dt, arr(rec)] + extra, rec, [s.datum, cl], ref, k, s.fcns, 0)
    else:
        n = d.int(-1, k + 2)

        def ref():
            if n < 0:
                raise Err(29010)
            return [cl[i] for i in ranks(s.distances(s.items))[:n]]
        run(d, "model.cluster.closestN", [I, s.dt, arr(rec)] + extra, arr(rec), [n, s.datum, cl], ref, k, s.fcns, 0)


def nearest(d):
    k = d.weighted([(1, 0), (2, 1), (6, d.int(2, 7))])
    s = Search(d, k)
    extra = [s.expr] if s.metric is not None else []
    if d.bool():
        n = d.int(-1, k + 2)
        bad = s.metric is None and k and d.chance(1, 5)
        if bad:
            i = d.below(k)
            s.items[i] = s.items[i][:-1] if s.items[i] and d.bool() else s.items[i] + [coord(d)]

        def ref():
            if n < 0:
                raise Err(30010)
            if bad:
                raise Err(30011)
            return [s.items[i] for i in ranks(s.distances(s.items))[:n]]
        run(d, "model.neighbor.nearestK", [I, s.dt, arr(s.it)] + extra, arr(s.it), [n, s.datum, s.items], ref, k, s.fcns, 0)
    else:
        r = d.choice([-1.0, 0.0, 1.0, 2.0, 3.0, 5.0, 0.25, float("inf"), float("nan")])

        def ref():
            # an exact comparison of squares for the default metric: a point at distance exactly r is not inside
            dist = s.distances(s.items)
            if s.metric is None:
                return [x for x, q in zip(s.items, dist) if r > 0 and q < r * r]
            return [x for x, q in zip(s.items, dist) if q < r]
        run(d, "model.neighbor.ballR", [D, s.dt, arr(s.it)] + extra, arr(s.it), [r, s.datum, s.items], ref, k, s.fcns, 0)


def mean(d):
    dim, k = d.int(0, 4), d.weighted([(1, 0), (2, 1), (6, d.int(2, 6))])
    points = [vec(d, dim) for _ in range(k)]
    bad = k > 1 and d.chance(1, 6)
    if bad:
        i = d.below(k)
        points[i] = points[i][:-1] if points[i] and d.bool() else points[i] + [coord(d)]
    args, params, fcns, w = [points], [arr(arr(D))], None, None
    if d.bool():
        c = d.int(-2, 3)
        body, w = d.choice([(float(c), lambda p: c), ({"+": [{"a.sum": ["p"]}, c]}, lambda p: sum(p) + c),
                            ({"a.len": ["p"]}, lambda p: len(p)),
                            ({"if": {">": [{"a.sum": ["p"]}, 6]}, "then": {"error": "far", "code": -9}, "else": {"*": [{"a.sum": ["p"]}, {"a.sum": ["p"]}]}}, lambda p: boom(sum(p) > 6, sum(p) ** 2))])
        f = {"params": [{"p": arr(D)}], "ret": D, "do": [body]}
        if d.bool():
            params.append(("expr", f))
        else:
            params.append(("expr", {"fcn": "u.w"}))
            fcns = {"w": f}

    def ref():
        if k == 0:
            raise Err(30000)
        ws, fail = [], None
        for p in points:
            if len(p) != len(points[0]):
                raise Err(30001)
            ws.append(1.0 if w is None else w(p))
        return [div(sum(q * p[i] for q, p in zip(ws, points)), sum(ws)) for i in range(len(points[0]))]
    run(d, "model.neighbor.mean", params, arr(D), args, ref, k, fcns)


def updatemean(d):
    dim, k = d.int(0, 4), d.weighted([(1, 0), (2, 1), (6, d.int(2, 6))])
    data = [vec(d, dim) for _ in range(k)]
    rec = clusterrec(d, arr(D))
    cl, = clustervals(d, rec, 1, lambda: vec(d, dim))
    bad = k > 0 and d.chance(1, 4)
    if bad:
        i = d.below(k + 1)
        v = cl["center"] if i == k else data[i]
        if v and d.bool():
            v.pop()
        else:
            v.append(coord(d))
        bad = not all(len(v) == len(cl["center"]) for v in data)
    w = d.choice([0.0, 1.0, 0.5, 2.0, -1.0, 10.0, -float(k)])

    def ref():
        if k == 0:
            raise Err(29040)
        if bad:
            raise Err(29041)
        return dict(cl, center=[div(sum(v[i] for v in data) + w * cl["center"][i], k + w) for i in range(len(cl["center"]))])
    run(d, "model.cluster.updateMean", [arr(arr(D)), rec, D], rec, [data, cl, w], ref, k)


def seeds(d):
    k = d.int(-1, 5)
    dim = d.int(0, 3)
    t = d.choice([D, I, "string"])
    mk = lambda: d.str("ab", 0, 1) if t == "string" else d.int(-1, 1) if t == I else d.int(-1, 1) / 2.0
    data = [[mk() for _ in range(dim)] for _ in range(d.int(0, 8))]
    bad = len(data) > 1 and d.chance(1, 6)
    if bad:
        data[d.below(len(data))].append(mk())
        bad = len(set(len(v) for v in data)) > 1
    rec = {"type": "record", "name": "Cl", "fields": [{"name": "center", "type": arr(t)}, {"name": "i", "type": "int"}]}
    f = {"params": [{"i": I}, {"v": arr(t)}], "ret": "Cl", "do": [{"type": "Cl", "new": {"center": "v", "i": "i"}}]}
    uniq = []
    for v in data:
        if v not in uniq:
            uniq.append(v)
    fcns = None
    if d.bool():
        fcns, f = {"mk": f}, {"fcn": "u.mk"}
    seed = d.int(0, 10 ** 6)
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "data", "type": arr(arr(t))}, {"name": "k", "type": I}]}, "output": arr(rec), "randseed": seed,
           "action": [{"model.cluster.randomSeeds": ["input.data", "input.k", f]}]}
    if fcns:
        doc["fcns"] = fcns
    d.note((doc, data, k))
    d.sut()
    x = {"data": data, "k": k}
    e = build(doc)
    hist = [outcome(e.action, x) for _ in range(4)]
    again = build(doc)
    if not all(close(list(outcome(again.action, x)), list(h), 0, 0) for h in hist):
        raise Violation("randomSeeds with the same seed and history gave different clusters for %s" % show(x))
    want = ("err", 29020) if k <= 0 else ("err", 29021) if len(uniq) < k else ("err", 29022) if bad else None
    for got in hist:
        if want is not None:
            if got != want:
                raise Violation("randomSeeds of %s: got %s, expected %s" % (show(x), show(got), show(want)))
            continue
        if got[0] != "ok" or len(got[1]) != k or [c["i"] for c in got[1]] != list(range(k)):
            raise Violation("randomSeeds of %s: got %s, expected %d clusters numbered from 0" % (show(x), show(got), k))
        cs = [c["center"] for c in got[1]]
        if any(c not in uniq for c in cs) or any(a == b for i, a in enumerate(cs) for b in cs[:i]):
            raise Violation("randomSeeds of %s: %s are not %d different points of the data" % (show(x), show(cs), k))
    if want is None and 2 <= len(uniq) <= 4 and d.chance(1, 4):
        # every point can be chosen, in first place too (a chance of (3/4)^200 of not seeing one of four)
        first = [outcome(e.action, x)[1][0]["center"] for _ in range(200)]
        if any(u not in first for u in uniq):
            raise Violation("randomSeeds of %s never starts with one of %s in 200 trials" % (show(x), show([u for u in uniq if u not in first])))
        d.label("spread")
    if len(data) > 1:
        d.nontrivial(repr((t, data, k)))
    d.label("ok" if want is None else "err %d" % want[1])


def kmeans(d):
    """a stream of batches through kmeansIteration, the clusters kept in a cell or passed along"""
    dim, k = d.int(1, 3), d.weighted([(1, 0), (2, 1), (6, d.int(2, 4))])
    ct = d.choice([D, D, D, I])
    rec = {"type": "record", "name": "Cl", "fields": [{"name": n, "type": t} for n, t in d.shuffle([("center", arr(D)), ("count", "int"), ("id", "string")])]}
    cl = clustervals(d, rec, k, lambda: vec(d, dim))
    body, metric = vecmetrics(d)
    w = d.choice([0.0, 1.0, 2.0, 0.5])
    how = d.below(3)
    if how == 0:
        upd = [{"model.cluster.updateMean": ["data", "c", w]}]
    elif how == 1:
        upd = [{"attr": {"model.cluster.updateMean": ["data", "c", w]}, "path": [["count"]], "to": {"+": ["c.count", {"a.len": ["data"]}]}}]
    else:
        # keeps the first and last item: order matters
        upd = [{"if": {">": [{"a.len": ["data"]}, 4]}, "then": {"error": "many", "code": -8}}, {"type": "Cl", "new": {"center": {"a.last": ["data"]}, "count": {"a.len": ["data"]}, "id": "c.id"}}]
    mf = {"params": [{"a": arr(ct)}, {"b": arr(D)}], "ret": D, "do": [body]}
    uf = {"params": [{"data": arr(arr(ct))}, {"c": "Cl"}], "ret": "Cl", "do": upd}
    fcns = {}
    if d.bool():
        fcns["m"], mf = mf, {"fcn": "u.m"}
    if d.bool():
        fcns["up"], uf = uf, {"fcn": "u.up"}
    doc = {"input": arr(arr(ct)), "output": arr(rec), "cells": {"clusters": {"type": arr("Cl"), "init": cl}}, "fcns": fcns,
           "action": [{"cell": "clusters", "to": {"params": [{"old": arr("Cl")}], "ret": arr("Cl"),
                                                   "do": [{"model.cluster.kmeansIteration": ["input", "old", mf, uf]}]}}, {"cell": "clusters"}]}
    d.note(doc)
    e = build(doc)
    cur = copy.deepcopy(cl)
    for _ in range(d.int(1, 4)):
        batch = [vec(d, dim) if ct == D else [d.int(-3, 3) for _ in range(dim)] for _ in range(d.weighted([(1, 0), (8, d.int(1, 7))]))]
        d.note(batch)

        def ref():
            if not batch:
                raise Err(29030)
            if not cur:
                raise Err(29031)
            groups = [[] for _ in cur]
            for x in batch:
                groups[ranks([metric(x, c["center"]) for c in cur])[0]].append(x)
            out = []
            for g, c in zip(groups, cur):
                if not g:
                    out.append(c)
                elif how == 2:
                    if len(g) > 4:
                        raise UserErr("many", -8)
                    out.append(dict(center=g[-1], count=len(g), id=c["id"]))
                else:
                    out.append(dict(c, center=[div(sum(x[i] for x in g) + w * c["center"][i], len(g) + w) for i in range(dim)],
                                    count=c["count"] + (len(g) if how == 1 else 0)))
            return out
        want = refoutcome(ref)
        # distances that nearly tie may go either way once centres are no longer exact
        if want[0] == "ok" and batch and cur:
            for x in batch:
                ds = sorted(metric(x, c["center"]) for c in cur)
                if any(0 < b - a < 1e-9 * (1 + abs(a)) for a, b in zip(ds, ds[1:])):
                    d.label("near tie")
                    return
        d.sut()
        got = outcome(e.action, batch)
        if want[0] == "user":
            if tuple(got) != tuple(want):
                raise Violation("kmeansIteration: got %s, expected %s" % (show(got), show(want)))
        else:
            compare_outcomes("kmeansIteration of %s: " % show(cur), [batch], got, want)
        if got[0] == "ok":
            cur = copy.deepcopy(got[1])
        d.label("ok" if got[0] == "ok" else "%s %s" % got[:2])
    if k > 1:
        d.nontrivial(repr(doc))


SUBS = [Sub("closest", closest, 500, 8000), Sub("nearest", nearest, 500, 8000), Sub("mean", mean, 300, 4000), Sub("updateMean", updatemean, 300, 4000),
        Sub("randomSeeds", seeds, 200, 3000), Sub("kmeans", kmeans, 300, 6000)]
