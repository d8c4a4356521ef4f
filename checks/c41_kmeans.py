"""C41: k-means assigns to the nearest centre and never worsens; its PFA agrees."""
import contextlib
import io
import json
import math
import random

import numpy

from pbt import Discard, Violation, show, close
from runner import Sub

import titus.producer.kmeans as km
from titus.genpy import PFAEngine
from titus.producer.transformation import Transformation

RULE = ("generated datasets (floats, integers, repeated and collinear points, clusters of points), weights, metrics, limits and stopping conditions; single iterations compared with a naive Lloyd step, complete optimizations "
        "checked to be fixed points and never to have worsened, stopping conditions compared with their definitions on generated corrections, and documents run on the points of the dataset and others against the nearest centre; "
        "non-trivial when there are two clusters or more and as many points again; distinct = distinct datasets, metrics and settings")
ASSUMPTIONS = ["points that are as close to two centres (to 1e-9) are not compared", "moving() asks for changes below 1e-15, which rounding may never reach: optimizations that only move by less than 1e-11 are taken as ended", "a condition is asked after each iteration with the number of iterations before it",
               "a cluster that is left without points, or with fewer than allowed, jumps to a point of the dataset that is no other cluster's centre"]
FACTOR = {"quick": 1, "thorough": 1}


class Metric(object):
    """(name, similarity) as the producer makes it and as it is defined"""

    def __init__(self, d, usual=False):
        p = d.choice([1.0, 1.5, 2.0, 3.0, 3])
        sigma = d.choice([0.5, 1.0, 3.0])
        kind = "Euclidean" if usual else d.choice(["Euclidean", "SquaredEuclidean", "Chebyshev", "Taxicab", "Minkowski"])
        sim = "AbsDiff" if usual else d.weighted([(4, "AbsDiff"), (1, "GaussianSimilarity")])
        s = km.AbsDiff() if sim == "AbsDiff" else km.GaussianSimilarity(sigma)
        self.made = km.Minkowski(s, p) if kind == "Minkowski" else getattr(km, kind)(s)
        self.name = "%s(%s)" % (kind + (" %s" % p if kind == "Minkowski" else ""), sim)
        self.usual = kind in ("Euclidean", "SquaredEuclidean") and sim == "AbsDiff"
        f = (lambda a, b: abs(a - b)) if sim == "AbsDiff" else (lambda a, b: math.exp(-math.log(2) * (a - b)**2 / sigma**2))
        self.f = {"Euclidean": lambda x, y: math.sqrt(sum(f(a, b)**2 for a, b in zip(x, y))), "SquaredEuclidean": lambda x, y: sum(f(a, b)**2 for a, b in zip(x, y)),
                  "Chebyshev": lambda x, y: max(f(a, b) for a, b in zip(x, y)), "Taxicab": lambda x, y: sum(f(a, b) for a, b in zip(x, y)),
                  "Minkowski": lambda x, y: sum(f(a, b)**p for a, b in zip(x, y))**(1.0 / p)}[kind]


def dataset(d, minimum=2):
    """rows, and the array"""
    dim = d.int(1, 3)
    n = d.int(minimum + 1, 12)
    ints = d.chance(1, 5)
    style = d.below(3)
    if style == 0:
        rows = [[float(d.int(-6, 6)) for _ in range(dim)] for _ in range(n)]
    elif style == 1:
        rows = [[d.finite() for _ in range(dim)] for _ in range(n)]
    else:
        cs = [[10.0 * d.int(-3, 3) for _ in range(dim)] for _ in range(d.int(1, 3))]
        rows = [[c + d.int(-4, 4) * 0.25 for c in d.choice(cs)] for _ in range(n)]
    if ints:
        rows = [[int(x) for x in r] for r in rows]
    if len(set(map(tuple, rows))) <= minimum:
        raise Discard()
    return rows, numpy.array(rows, dtype=int if ints else float)


def nearest(point, centers, metric):
    """index, and whether it is clear"""
    ds = [metric.f(point, c) for c in centers]
    i = min(range(len(ds)), key=lambda j: ds[j])
    return i, all(j == i or x > ds[i] + 1e-9 * max(1.0, abs(x)) for j, x in enumerate(ds))


def mean(points, weights):
    w = sum(weights)
    return [sum(p[k] * x for p, x in zip(points, weights)) / w for k in range(len(points[0]))]


def loss(rows, weights, centers):
    return sum(w * min(sum((a - b)**2 for a, b in zip(r, c)) for c in centers) for r, w in zip(rows, weights))


def setup(d, usual=False):
    k = d.int(1, 4)
    rows, data = dataset(d, k)
    ws = d.choice([None, [d.choice([1.0, 0.5, 2.0, 3.0, 0.0, 7.5]) for _ in rows]])
    metric = Metric(d, usual)
    least = d.choice([None, None, None, d.int(1, 4)]) if not usual else None
    most = d.choice([None, None, d.int(k + 1, len(rows))]) if not usual and len(rows) > k else None
    seed = d.int(0, 10**6)
    d.note([rows, ws, k, metric.name, least, most, seed])
    random.seed(seed)
    numpy.random.seed(seed % 1000)
    try:
        m = km.KMeans(k, data, None if ws is None else numpy.array(ws), metric.made, least, most)
    except Exception as err:
        raise Violation("k-means with %d clusters of %s is refused (%s: %s)" % (k, show(rows), type(err).__name__, err))
    cs = [list(map(float, c)) for c in m.clusters]
    if len(cs) != k or len(set(map(tuple, cs))) != k or any(c not in [list(map(float, r)) for r in rows] for c in cs):
        raise Violation("the %d clusters of %s start at %s" % (k, show(rows), cs))
    return k, rows, data, ws, metric, least, most, m


def steps(d):
    k, rows, data, ws, metric, least, most, m = setup(d)
    ones = [1.0] * len(rows) if ws is None else ws
    keep = data.copy()
    with numpy.errstate(all="ignore"):
        for n in range(d.int(1, 4)):
            before = [list(map(float, c)) for c in m.clusters]
            told = []

            def condition(*args):
                told.append(args)
                return "the answer"
            d.sut()
            what = "iteration %d of %s (weights %s, %s, at least %s) from %s" % (n, show(rows), ws, metric.name, least, before)
            try:
                out = m.iterate(m.dataset, m.weights, n, condition)
                labels = list(m.closestCluster())
            except Exception as err:
                raise Violation("%s fails with %s (%s)" % (what, type(err).__name__, err))
            after = [list(map(float, c)) for c in m.clusters]
            if not (data == keep).all():
                raise Violation("%s changes the dataset" % what)
            if out != "the answer" or len(told) != 1 or told[0][0] != n or told[0][3] != len(rows) or len(told[0][1]) != k or len(told[0][2]) != k:
                raise Violation("%s asks the condition %s" % (what, show(told)))
            near = [nearest(r, before, metric) for r in rows]
            if not all(clear for i, clear in near):
                raise Discard()
            for j in range(k):
                mine = [i for i, (c, _) in enumerate(near) if c == j]
                corr, value = told[0][1][j], told[0][2][j]
                if least is not None and len(mine) < least or sum(ones[i] for i in mine) == 0:
                    if after[j] not in [list(map(float, r)) for r in rows] or corr is not None or value is not None:
                        raise Violation("%s: cluster %d of points %s should jump to a point of the dataset; it moves to %s (%s)" % (what, j, mine, after[j], corr))
                    if after[j] in after[:j]:
                        raise Violation("%s: cluster %d jumps to another cluster: %s" % (what, j, after))
                    d.label("jump")
                else:
                    want = mean([rows[i] for i in mine], [ones[i] for i in mine])
                    if not close(want, after[j], 1e-9, 1e-9):
                        raise Violation("%s: cluster %d of points %s should move to %s; it moves to %s" % (what, j, mine, want, after[j]))
                    if corr is None or value is None or not close(list(map(float, value)), after[j], 1e-9, 1e-9) or not close([a - b for a, b in zip(after[j], before[j])], list(map(float, corr)), 1e-9, 1e-9):
                        raise Violation("%s: cluster %d moves to %s, the condition is told %s by %s" % (what, j, after[j], value, corr))
            for r, label in zip(rows, labels):
                i, clear = nearest(r, after, metric)
                if clear and i != label:
                    raise Violation("%s: %s is closest to cluster %d of %s, not %d" % (what, r, i, after, label))
    if k > 1 and len(rows) >= 2 * k:
        d.nontrivial([rows, ws, metric.name, least])


def optimizations(d):
    k, rows, data, ws, metric, least, most, m = setup(d, True)
    if ws is not None:
        # a weight for each point, so that no cluster is left without
        ws = [w or 1.0 for w in ws]
        m.weights = numpy.array(ws)
    ones = [1.0] * len(rows) if ws is None else ws
    what = "optimization of %s (weights %s) from %s" % (show(rows), ws, [list(c) for c in m.clusters])
    history = []

    def record(n, corrections, values, size):
        history.append((n, [None if c is None else list(map(float, c)) for c in corrections], size))
        return True
    limit = 200
    with numpy.errstate(all="ignore"):
        if d.chance(1, 3):
            # successively larger subsets of the dataset
            base = d.choice([2, 3])
            sizes = []

            def cond(n, corrections, values, size):
                if n == 0:
                    sizes.append(size)
                return n < 2
            m.stepup(cond, base)
            want = [base**x for x in range(10) if k < base**x <= len(rows)]
            if sizes != want:
                raise Violation("stepup of %d points and %d clusters by %d uses subsets of %s, not %s" % (len(rows), k, base, sizes, want))
            d.label("stepup")
        start = loss(rows, ones, [list(c) for c in m.clusters])
        d.sut()
        try:
            m.optimize(km.whileall(record, km.moving(), km.maxIterations(limit)))
        except Exception as err:
            raise Violation("%s fails with %s (%s)" % (what, type(err).__name__, err))
    if [n for n, _, _ in history] != list(range(len(history))) or any(s != len(rows) for _, _, s in history):
        raise Violation("%s: the conditions were asked about iterations %s of sizes %s" % (what, [n for n, _, _ in history], [s for _, _, s in history]))
    jumped = any(c is None for _, cs, _ in history for c in cs)
    end = [list(map(float, c)) for c in m.clusters]
    if len(history) > limit:
        if not jumped and any(abs(x) > 1e-11 for c in history[-1][1] for x in c):
            raise Violation("%s does not end: %s" % (what, history[-2:]))
        return
    for n, cs, _ in history[:-1]:
        if all(c is not None and all(abs(x) < 1e-16 for x in c) for c in cs):
            raise Violation("%s goes on although nothing moved in iteration %d" % (what, n))
    if any(c is None for c in history[-1][1]):
        raise Violation("%s ends when a cluster jumped" % what)
    near = [nearest(r, end, metric) for r in rows]
    if all(clear for _, clear in near):
        for j in range(k):
            mine = [i for i, (c, _) in enumerate(near) if c == j]
            if not mine or not close(mean([rows[i] for i in mine], [ones[i] for i in mine]), end[j], 1e-6, 1e-9):
                raise Violation("%s ends at %s, where cluster %d of points %s is not at their mean" % (what, end, j, mine))
    if not jumped and loss(rows, ones, end) > start * (1 + 1e-9) + 1e-9:
        raise Violation("%s worsens from %s to %s" % (what, start, loss(rows, ones, end)))
    cs = m.centers()
    if cs != sorted(end) or m.centers(sort=False) != end:
        raise Violation("%s ends at %s; centers gives %s" % (what, end, cs))
    d.label("%d iterations" % min(len(history), 6), "jumped" if jumped else "moved")
    if k > 1 and len(rows) >= 2 * k:
        d.nontrivial([rows, ws, k])


def subsets(d):
    """random subsets: that many different records, each with its own weight"""
    k, rows, data, ws, metric, least, most, m = setup(d, True)
    n = d.int(max(1, k - 1), len(rows))
    d.note([rows, ws, k, n])
    d.sut()
    try:
        x, w = m.randomSubset(n)
    except TypeError:
        if n > k:
            raise
        return
    if n <= k:
        raise Violation("a subset of %d of %d records is made for %d clusters" % (n, len(rows), k))
    got = [(tuple(map(float, r)), None if w is None else float(w[i])) for i, r in enumerate(x)]
    have = [(tuple(map(float, r)), None if ws is None else float(ws[i])) for i, r in enumerate(rows)]
    if len(got) != n or (w is None) != (ws is None) or w is not None and len(w) != n:
        raise Violation("a subset of %d records has %d records and weights %s" % (n, len(got), w))
    for g in got:
        if g not in have:
            raise Violation("the record and weight %s of a subset are not in the dataset %s" % (g, have))
        have.remove(g)
    if n < len(rows) and ws is not None:
        d.nontrivial([rows, ws, n])


def conditions(d):
    k = d.int(1, 4)
    dim = d.int(1, 2)
    corr = [None if d.chance(1, 4) else [d.choice([0.0, 1e-16, 1e-4, -1e-4, 0.01, -0.5, 2.0]) for _ in range(dim)] for _ in range(k)]
    n = d.int(0, 5)
    limit, t1, t2 = d.int(0, 5), d.choice([1e-15, 1e-3, 0.1]), d.choice([1e-3, 0.1])
    arrays = [None if c is None else numpy.array(c) for c in corr]
    there = [c for c in corr if c is not None]
    small = lambda t: [all(abs(x) < t for x in c) for c in there]
    atoms = {"clusterJumped": (km.clusterJumped(), len(there) < k), "maxIterations(%d)" % limit: (km.maxIterations(limit), n < limit), "allChange(%g)" % t1: (km.allChange(t1), not all(small(t1))),
             "halfChange(%g)" % t2: (km.halfChange(t2), len(there) > 0 and sum(small(t2)) * 2 < len(there)), "moving": (km.moving(), len(there) < k or not all(small(1e-15))),
             "printValue": (km.printValue(d.choice(["g", "6.4f"])), True), "printChange": (km.printChange(), True)}

    def gen(depth):
        if depth > 2 or d.bool():
            x = d.choice(sorted(atoms))
            return x, atoms[x][0], atoms[x][1]
        xs = [gen(depth + 1) for _ in range(d.int(1, 3))]
        f = d.choice(["whileall", "whileany"])
        return "%s(%s)" % (f, ", ".join(x for x, _, _ in xs)), getattr(km, f)(*[y for _, y, _ in xs]), (all if f == "whileall" else any)(z for _, _, z in xs)
    text, c, want = gen(0)
    d.note([text, n, corr])
    d.sut()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), numpy.errstate(all="ignore"):
            got = bool(c(n, arrays, [None if a is None else a + 1 for a in arrays], 10))
    except Exception as err:
        raise Violation("%s fails with %s (%s) after iteration %d with the changes %s" % (text, type(err).__name__, err, n, corr))
    if got != want:
        raise Violation("%s is %s after iteration %d with the changes %s" % (text, got, n, corr))
    if "while" in text:
        d.nontrivial([text, n, corr])


def documents(d):
    k, rows, data, ws, metric, least, most, m = setup(d)
    with numpy.errstate(all="ignore"):
        m.optimize(km.whileall(km.moving(), km.maxIterations(d.int(0, 10))))
    centers = [list(map(float, c)) for c in m.clusters]
    ids, idtype = (["c%d" % i for i in range(k)], "string") if d.chance(2, 3) else (list(range(10, 10 + k)), "int")
    pops, sort = d.bool(), d.bool()
    pre = d.choice([None, None, "text", "json"])
    dim = len(rows[0])
    kw = {}
    if pre == "text":
        kw["preprocess"] = "new(array(double), %s)" % ", ".join("input[%d] * 2.0" % i for i in range(dim))
    elif pre == "json":
        kw["preprocess"] = {"type": {"type": "array", "items": "double"}, "new": [{"*": [{"attr": "input", "path": [i]}, 2.0]} for i in range(dim)]}
    scale = 2.0 if pre else 1.0
    if idtype != "string" or d.bool():
        kw["idType"] = idtype
    d.note([ids, pops, sort, pre])
    d.sut()
    what = "the document of clusters at %s (%s, populations %s, sort %s, preprocess %s)" % (centers, metric.name, pops, sort, pre)
    try:
        doc = m.pfaDocument("Cluster", ids, populations=pops, sort=sort, **kw)
        value = m.pfaValue(ids, pops, sort)
        ctype = m.pfaType("Cluster", idtype, populations=pops)
        engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
    except Exception as err:
        raise Violation("%s cannot be made or loaded (%s: %s)" % (what, type(err).__name__, err))
    order = sorted(centers) if sort else centers
    labels = [nearest(r, centers, metric) for r in rows]
    want = [{"center": c, "id": i} for c, i in zip(order, ids)]
    if pops and all(clear for _, clear in labels):
        for w in want:
            w["population"] = sum(centers[i] == w["center"] for i, _ in labels)
        got = [dict(v) for v in value]
    else:
        got = [dict((a, b) for a, b in v.items() if a != "population") for v in value]
    if not close(json.loads(json.dumps(got)), want, 1e-12, 1e-12):
        raise Violation("%s: pfaValue is %s, not %s" % (what, got, want))
    # the type holds the value
    try:
        e2, = PFAEngine.fromJson({"name": "E", "input": "null", "output": ctype, "action": {"cell": "x"}, "cells": {"x": {"type": ctype, "init": json.loads(json.dumps([dict(v) for v in value]))}}})
        e2.action(None)
    except Exception as err:
        raise Violation("%s: pfaType %s does not hold pfaValue %s (%s: %s)" % (what, ctype, value, type(err).__name__, err))
    if len(value) and any(set(v) != set(f["name"] for f in ctype["items"]["fields"]) for v in value):
        raise Violation("%s: the fields of %s are not those of %s" % (what, value, ctype))
    compared = 0
    for p in rows + [[d.choice([0.0, 1.5, -20.0, 3.25]) for _ in range(dim)] for _ in range(3)]:
        x = [float(v) for v in p]
        i, clear = nearest([v * scale for v in x], order, metric)
        if not clear:
            continue
        try:
            got = engine.action(x)
        except Exception as err:
            raise Violation("%s fails on %s (%s: %s)" % (what, x, type(err).__name__, err))
        if got != ids[i]:
            raise Violation("%s gives %s for %s, which is closest to %s (%s)" % (what, got, x, order[i], ids[i]))
        compared += 1
    if compared and not pre and sort is False:
        for r, label in zip(rows, m.closestCluster()):
            i, clear = nearest(r, centers, metric)
            if clear and engine.action([float(v) for v in r]) != ids[label]:
                raise Violation("%s gives %s for %s, which the producer puts in cluster %d" % (what, engine.action([float(v) for v in r]), r, label))
    d.label(metric.name.split("(")[0].split()[0])
    if k > 1 and compared >= 2 * k:
        d.nontrivial([rows, metric.name, k])


SUBS = [Sub("steps", steps, 800, 20000), Sub("optimizations", optimizations, 500, 12000), Sub("subsets", subsets, 150, 2000), Sub("conditions", conditions, 1500, 20000), Sub("documents", documents, 250, 5000)]
