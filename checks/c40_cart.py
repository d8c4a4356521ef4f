"""C40: CART trees split by maximal gain and score as the producer says."""
import itertools
import json
import math

import numpy

from pbt import Discard, Violation, show, close
from runner import Sub

from titus.genpy import PFAEngine
from titus.producer.cart import Dataset, TreeNode

numpy.seterr(all="ignore")

RULE = ("generated datasets of numerical and categorical columns (repeated values, close values, rare categories, predictands that follow the predictors or not), subset limits and stopping conditions; every node of the tree compared with a "
        "brute-force search over all cuts and category subsets of the records that reach it, and documents run on the records and others against a walk over the tree; non-trivial when the root has been split; "
        "distinct = distinct datasets and settings")
ASSUMPTIONS = ["a cut lies between two different values of a numerical column; a subset of a categorical one has at most maxSubsetSize members and at most half of the node's categories (rounded up)",
               "gains are compared to 1e-9 of the predictand's spread, so any of several best splits is right", "predictands are moderate numbers (sums of squares of huge ones cancel)",
               "a tree without any split has no PFA document (its type is a record of a split)"]
FACTOR = {"quick": 1, "thorough": 1}


class Table(object):
    """rows of predictors, predictands, and the producer's objects"""

    def __init__(self, d, most=12):
        n = d.int(2, most)
        k = d.int(1, 3)
        self.kinds = [d.choice(["num", "num", "str"]) for _ in range(k)]
        self.cls = d.chance(1, 2)
        self.limit = d.choice([None, None, 1, 2, 3])
        cols = []
        for kind in self.kinds:
            if kind == "str":
                letters = "abcdef"[:d.int(1, 6)]
                cols.append([d.choice(letters) for _ in range(n)])
            else:
                style = d.below(4)
                if style == 0:
                    cols.append([d.int(-3, 3) for _ in range(n)])
                elif style == 1:
                    cols.append([d.int(-20, 20) * 0.25 for _ in range(n)])
                elif style == 2:
                    cols.append([d.finite() for _ in range(n)])
                else:
                    x = d.choice([1.0, 0.1, -7.3, 1e-300, 12345.678])
                    near = [x, float(numpy.nextafter(x, 1e300)), float(numpy.nextafter(x, -1e300))]
                    cols.append([d.choice(near) for _ in range(n)])
        follow = None if d.chance(1, 3) else d.below(k)
        if follow is not None:
            if self.kinds[follow] == "str":
                keys = [ord(x) % 4 for x in cols[follow]]
            else:
                order = sorted(set(cols[follow]))
                keys = [order.index(x) // 2 for x in cols[follow]]
        else:
            keys = [d.below(4) for _ in range(n)]
        if not d.chance(1, 2):
            keys = [y + d.choice([0, 0, 1]) for y in keys]
        if self.cls:
            self.ys = ["PQRSTUVWXYZ"[y % 4] for y in keys]
        else:
            self.ys = [float(y) + d.choice([0.0, 0.0, 0.25, 0.1]) for y in keys] if not d.chance(1, 4) else [d.int(-40, 40) for _ in range(n)]
        self.rows = [tuple(c[i] for c in cols) for i in range(n)]
        self.names = d.sample(["x", "y", "z", "alpha"], k)
        self.at = d.below(k + 1)     # column of the predictand

    def all(self):
        return [r[:self.at] + (y,) + r[self.at:] for r, y in zip(self.rows, self.ys)]

    def tree(self):
        names = list(self.names)
        names.insert(self.at, "target")
        return TreeNode.fromWholeDataset(Dataset.fromIterable(self.all(), names=names), "target", self.limit)

    def key(self):
        return show([self.names, self.at, self.limit, self.all()])


def entropy(ys):
    n = float(len(ys))
    return -sum(c / n * math.log(c / n, 2) for c in (ys.count(y) for y in set(ys)))


def nvar(ys):
    m = math.fsum(ys) / len(ys)
    return math.fsum((y - m)**2 for y in ys)


def gain(ys, side, cls):
    a, b = [y for y, s in zip(ys, side) if s], [y for y, s in zip(ys, side) if not s]
    if cls:
        return entropy(ys) - (len(a) * entropy(a) + len(b) * entropy(b)) / len(ys)
    return nvar(ys) - nvar(a) - nvar(b)


def candidates(t, rows):
    """(column, set of values or cut): every split that the producer may choose"""
    for c, kind in enumerate(t.kinds):
        values = sorted(set(r[c] for r in rows))
        if kind == "num":
            for x in values[:-1]:
                yield c, x
        elif len(values) > 1:
            most = int(math.ceil(len(values) / 2.0))
            for size in range(1, (most if t.limit is None else min(most, t.limit)) + 1):
                for combo in itertools.combinations(values, size):
                    yield c, frozenset(combo)


def passes(row, c, x):
    return row[c] in x if isinstance(x, frozenset) else row[c] <= x


def strings(field):
    return field.select(numpy.ones(len(field.data), dtype=bool)).toPython().data


def content(node):
    cols = [strings(f) for f in node.dataset.fields]
    return list(zip(*cols)), strings(node.predictand)


def splitOf(node):
    """(column, set of categories or cut) of a node"""
    c = node.fieldIndex
    if node.dataset.names[c] != node.splitField():
        raise Violation("splitField() is %s, but the split is on %s" % (show(node.splitField()), node.dataset.names[c]))
    if node.field.tpe is str:
        return c, frozenset(node.field.intToStr[i] for i in node.split)
    return c, float(node.split)


def isLeaf(node):
    return not hasattr(node, "passBranch") and not hasattr(node, "failBranch")


def verify(t, node, rows, ys, depth, goesOn, out):
    """the node (which has been asked to split) and everything below"""
    where = "at depth %d, for %s with predictands %s" % (depth, show(rows), show(ys))
    if content(node) != (rows, ys):
        raise Violation("wrong records %s %s" % (show(content(node)), where))
    stats(t, node, rows, ys, where)
    pure = len(set(ys)) == 1
    if node.canSplit() != (not pure):
        raise Violation("canSplit() is %s %s" % (node.canSplit(), where))
    out.append((node, depth))
    if goesOn is None or pure:
        if not isLeaf(node):
            raise Violation("split although %s %s" % ("the condition asked to stop" if goesOn is None else "all predictands are the same", where))
        return
    best = None
    for c, x in candidates(t, rows):
        g = gain(ys, [passes(r, c, x) for r in rows], t.cls)
        if best is None or g > best[0]:
            best = g, c, x
    if best is None:
        if not isLeaf(node):
            raise Violation("split although all records are the same %s" % where)
        return
    if isLeaf(node):
        raise Violation("not split, but %s could be with gain %s %s" % (t.names[best[1]], best[0], where))
    c, x = splitOf(node)
    if isinstance(x, frozenset) and t.limit is not None and len(x) > t.limit:
        raise Violation("a subset of %d categories, the limit is %d %s" % (len(x), t.limit, where))
    side = [passes(r, c, x) for r in rows]
    if all(side) or not any(side):
        raise Violation("a split that leaves a side empty: %s %s %s" % (t.names[c], show(x), where))
    mine = gain(ys, side, t.cls)
    scale = 1.0 if t.cls else max(1.0, sum(y * y for y in ys))
    if abs(mine - node.gain) > 1e-9 * scale:
        raise Violation("the split on %s (%s) has gain %s, not %s %s" % (t.names[c], show(x), mine, node.gain, where))
    if mine < best[0] - 1e-9 * scale:
        raise Violation("split on %s (%s) with gain %s, but %s (%s) has %s %s" % (t.names[c], show(x), mine, t.names[best[1]], show(best[2]), best[0], where))
    if t.cls:
        if not close(float(node.entropy), entropy(ys), 1e-9, 1e-9):
            raise Violation("entropy %s, not %s %s" % (node.entropy, entropy(ys), where))
    elif abs(node.nTimesVariance - nvar(ys)) > 1e-9 * scale:
        raise Violation("n times variance %s, not %s %s" % (node.nTimesVariance, nvar(ys), where))
    below = goesOn(node, depth + 1)
    for branch, want in ((node.passBranch, True), (node.failBranch, False)):
        sub = [(r, y) for r, y, s in zip(rows, ys, side) if s == want]
        verify(t, branch, [r for r, y in sub], [y for r, y in sub], depth + 1, goesOn if below else None, out)


def stats(t, node, rows, ys, where):
    if node.datasetSize != len(rows):
        raise Violation("datasetSize %s %s" % (node.datasetSize, where))
    if t.cls:
        dist = dict((node.predictand.intToStr[i], p) for i, p in enumerate(node.predictandDistribution))
        if set(dist) != set(t.ys) or any(abs(dist[y] - float(ys.count(y)) / len(ys)) > 1e-12 for y in dist):
            raise Violation("predictandDistribution %s %s" % (show(dist), where))
        if ys.count(node.score()) != max(ys.count(y) for y in ys):
            raise Violation("score %s %s" % (show(node.score()), where))
    else:
        if list(node.predictandUnique) != sorted(set(map(float, ys))):
            raise Violation("predictandUnique %s %s" % (show(list(node.predictandUnique)), where))
        if not close(float(node.score()), math.fsum(ys) / len(ys), 1e-9, 1e-9):
            raise Violation("score %s %s" % (show(node.score()), where))


class Condition(object):
    """stopping rule, that remembers whom it was asked about"""

    def __init__(self, d):
        self.kind = d.choice(["complete", "depth", "until"])
        self.most = d.int(1, 4)
        self.rule = d.choice(["size", "gain", "never", "field"])
        self.asked = []

    def __call__(self, node, depth):
        if self.kind == "complete":
            return True
        if self.kind == "depth":
            return depth < self.most
        if self.rule == "size":
            return node.datasetSize > self.most
        if self.rule == "gain":
            return node.gain > 0.125 * self.most
        if self.rule == "field":
            return node.fieldIndex != self.most % 3
        return False

    def apply(self, tree):
        if self.kind == "complete":
            tree.splitComplete()
        elif self.kind == "depth":
            tree.splitMaxDepth(self.most)
        else:
            def ask(node, depth):
                self.asked.append((node, depth))
                return self(node, depth)
            tree.splitUntil(ask)

    def __str__(self):
        return "%s %s %s" % (self.kind, self.most, self.rule)


def splits(d):
    t = Table(d)
    cond = Condition(d)
    d.note("%s max subset %s\n%s" % (cond, t.limit, show([t.names] + t.all())))
    d.sut()
    tree = t.tree()
    cond.apply(tree)
    rows = [tuple(float(x) if isinstance(x, int) else x for x in r) for r in t.rows]
    nodes = []
    verify(t, tree, rows, list(t.ys), 0, cond, nodes)
    inner = [(n, k) for n, k in nodes if not isLeaf(n)]
    if cond.kind == "until" and ([id(n) for n, k in cond.asked] != [id(n) for n, k in inner] or [k for n, k in cond.asked] != [k + 1 for n, k in inner]):
        raise Violation("the condition was asked about depths %s, nodes are at %s" % ([k for n, k in cond.asked], [k + 1 for n, k in inner]))
    same = lambda a, b: [(id(n), k) for n, k in a] == [(id(n), k) for n, k in b]
    if not same(tree.walkNodes(), nodes):
        raise Violation("walkNodes gives depths %s, not %s" % ([k for n, k in tree.walkNodes()], [k for n, k in nodes]))
    if not same(tree.walkLeaves(), [(n, k) for n, k in nodes if isLeaf(n)]):
        raise Violation("walkLeaves gives depths %s" % [k for n, k in tree.walkLeaves()])

    def upward(n, k):
        return ([] if isLeaf(n) else upward(n.passBranch, k + 1) + upward(n.failBranch, k + 1)) + [(n, k)]
    if not same(tree.walkNodes(topDown=False), upward(tree, 0)):
        raise Violation("walkNodes(topDown=False) gives depths %s" % [k for n, k in tree.walkNodes(topDown=False)])
    for n, k in nodes:
        if isLeaf(n) and n.splitField() is not None:
            raise Violation("splitField() of a leaf is %s" % show(n.splitField()))
    if inner:
        d.nontrivial(t.key() + str(cond))
        d.label("depth %d" % max(k for n, k in nodes))


def datasets(d):
    """rows in, columns out"""
    t = Table(d, 6)
    rows = t.all()
    limit = d.choice([None, None, 1, 2, 4, 10])
    names = None if d.chance(1, 3) else ["n%d" % i for i in range(len(rows[0]))]
    bad = d.choice([None, None, "short", "long", "type", "names", "kind"])
    where = d.below(len(rows))
    given = [list(r) for r in rows]
    if bad == "short":
        given[where].pop()
    elif bad == "long":
        given[where].append(1.0)
    elif bad == "type":
        c = d.below(len(rows[0]))
        given[where][c] = 1.5 if isinstance(given[where][c], str) else "1.5"
    elif bad == "kind":
        given[where][d.below(len(rows[0]))] = d.choice([None, [1.0], b"x"])
    elif bad == "names":
        names = ["n"] * (len(rows[0]) + d.choice([-1, 1]))
    seen = len(given) if limit is None else min(limit, len(given))
    refused = bad == "names" or bad in ("type", "kind") and where < seen and (where > 0 or bad == "kind") or bad in ("short", "long") and where < seen
    if bad in ("short", "long", "type") and where == 0:
        if len(given) == 1 or seen == 1:
            refused = bad != "type" and names is not None
        elif bad == "type":
            refused = seen > 1
        else:
            refused = True
    d.note("limit %s names %s\n%s" % (limit, show(names), show(given)))
    try:
        d.sut()
        ds = Dataset.fromIterable(iter(given), limit=limit, names=names)
    except ValueError as err:
        if not refused:
            raise Violation("refused: %s" % err)
        d.nontrivial("refused " + show(given) + str(limit))
        return
    if refused:
        raise Violation("dataset accepted (%s row %d)" % (bad, where))
    want = given[:seen]
    k = len(want[0])
    if ds.names != (names or ["var%d" % i for i in range(k)]) or len(ds) != len(want):
        raise Violation("names %s, %d rows" % (show(ds.names), len(ds)))
    pick = [d.chance(1, 2) for _ in want]
    for c, f in enumerate(ds.fields):
        col = [r[c] for r in want]
        half = f.select(numpy.array(pick, dtype=bool))
        if strings(f) != col or strings(half) != [x for x, p in zip(col, pick) if p]:
            raise Violation("column %d is %s, selection %s, not %s, %s" % (c, show(strings(f)), show(strings(half)), show(col), pick))
        if f.tpe is str and (f.intToStr != dict(enumerate(sorted(set(col)))) or f.strToInt != dict((x, i) for i, x in f.intToStr.items())):
            raise Violation("categories %s of %s" % (show(f.intToStr), show(col)))
        half.data[...] = 0
        if f.toPython().data != col or f.toNumpy().toPython().data != col:
            raise Violation("column %d isn't independent of a selection, or doesn't come back" % c)
    d.nontrivial(show(want) + str(limit))


def walk(node, row):
    while not isLeaf(node):
        c, x = splitOf(node)
        node = node.passBranch if passes(row, c, x) else node.failBranch
    return node.score()


NUMBERS = ["double", "double", "float", "int", "long"]


def documents(d):
    t = Table(d, 8)
    cond = Condition(d)
    types = ["string" if kind == "str" else d.choice(NUMBERS) for kind in t.kinds]
    for c, tpe in enumerate(types):
        if tpe in ("int", "long"):
            t.rows = [r[:c] + (int(max(-1000, min(1000, r[c]))),) + r[c + 1:] for r in t.rows]
    d.sut()
    tree = t.tree()
    cond.apply(tree)
    if isLeaf(tree):
        raise Discard()
    fields = list(zip(t.names, types)) + ([("unused", d.choice(["string", "double", "boolean"]))] if d.chance(1, 3) else [])
    fields = d.sample(fields, len(fields))
    dataType = {"type": "record", "name": "Datum", "fields": [{"name": n, "type": x} for n, x in fields]}
    if d.chance(1, 5):
        dataType["namespace"] = "org.data"
    options = dict((x, d.chance(1, 2)) for x in ("nodeScores", "datasetSize", "predictandUnique", "gain", "predictandDistribution" if t.cls else "nTimesVariance"))
    if t.cls:
        options["entropy"] = d.chance(1, 2)
    if any(options.values()) and any(not isLeaf(n) and not hasattr(n, "gain") for n, k in tree.walkNodes()):
        raise Discard()
    name = d.choice(["TreeNode", "Node"])
    pre = d.chance(1, 4)
    d.note("%s as %s, options %s, %s\n%s\n" % (t.names, show(dataType), sorted(k for k in options if options[k]), cond, show(t.all())))
    full = ("org.data." if "namespace" in dataType else "") + "Datum"
    d.sut()
    if pre:
        # the same fields, from a record that has them in another order
        inputType = {"type": "record", "name": "Raw", "fields": [{"name": n + "In", "type": x} for n, x in reversed(fields)]}
        make = {"type": dataType, "new": dict((n, {"attr": "input", "path": [{"string": n + "In"}]}) for n, x in fields)}
        doc = tree.pfaDocument(inputType, name, dataType=dataType, preprocess=make, **options)
    else:
        doc = tree.pfaDocument(dataType, name, **options)
    doc = json.loads(json.dumps(doc))
    d.note("%s\n" % json.dumps(doc))
    engine, = PFAEngine.fromJson(doc)
    loaded = json.loads(engine.snapshot().cells["tree"].init)
    compareNode(t, tree, loaded, name, options)
    others = []
    cuts = [splitOf(n) for n, k in tree.walkNodes() if not isLeaf(n)]
    for _ in range(4):
        r = []
        for c, tpe in enumerate(types):
            if tpe == "string":
                r.append(d.choice(list("abcdefg") + [""]))
            else:
                near = [x for c2, x in cuts if c2 == c]
                x = d.choice(near) + d.choice([0.0, 0.0, 0.25, -0.25]) if near and not d.chance(1, 3) else d.choice([0.0, -1.5, 1e9, 7.25])
                r.append(d.choice([math.floor, math.ceil])(x) if tpe in ("int", "long") else x)
        others.append(tuple(r))
    for row in t.rows + others:
        datum = dict(zip(t.names, row))
        for n, tpe in fields:
            if n == "unused":
                datum[n] = {"string": "a", "double": 2.5, "boolean": True}[tpe]
        want = walk(tree, row)
        d.sut()
        got = engine.action(dict((n + "In", x) for n, x in datum.items()) if pre else datum)
        if got != want:
            raise Violation("%s scores %s, the tree %s" % (show(datum), show(got), show(want)))
    d.nontrivial(t.key() + str(cond) + str(sorted(options.items())) + str(types))
    d.label("preprocessed" if pre else "plain")


def compareNode(t, node, got, name, options):
    score = "string" if t.cls else "double"
    if isLeaf(node):
        if set(got) != {score} or not (got[score] == node.score()):
            raise Violation("a leaf with score %s is %s" % (show(node.score()), show(got)))
        return
    c, x = splitOf(node)
    want = {"field": t.names[c]}
    if options["nodeScores"]:
        want["score"] = node.score()
    if options["datasetSize"]:
        want["datasetSize"] = node.datasetSize
    if options["gain"]:
        want["gain"] = node.gain
    if options["predictandUnique"]:
        want["scoreValues"] = sorted(set(content(node)[1]))
    if options.get("predictandDistribution"):
        ys = content(node)[1]
        want["scoreDistribution"] = dict((y, float(ys.count(y)) / len(ys)) for y in set(t.ys))
    if options.get("entropy"):
        want["entropy"] = node.entropy
    if options.get("nTimesVariance"):
        want["nTimesVariance"] = node.nTimesVariance
    if set(got) != set(want) | {"operator", "value", "pass", "fail"}:
        raise Violation("a node has fields %s" % show(sorted(got)))
    for k, v in want.items():
        if k == "scoreDistribution" and set(v) == set(got[k]) and all(abs(v[y] - got[k][y]) < 1e-12 for y in v):
            continue
        if got[k] != v:
            raise Violation("%s of a node is %s, not %s" % (k, show(got[k]), show(v)))
    for branch, key in ((node.passBranch, "pass"), (node.failBranch, "fail")):
        sub = got[key]
        compareNode(t, branch, sub if isLeaf(branch) else sub.get(name, {}), name, options)


SUBS = [Sub("splits", splits, 2500, 20000), Sub("datasets", datasets, 500, 4000), Sub("documents", documents, 400, 4000)]
