"""C17: random functions: seeds, ranges, populations, weights."""
import json
import math
import random as _pyrandom
import re

from pbt import Violation, show, same
from runner import Sub
from engines import build, outcome

RULE = ("generated calls of every rand function, drawn several times and tested against the documented range, size, population and error codes; generated calls of small discrete or bucketed distributions drawn 1500 times "
        "and tested with chi-square at a false-alarm rate of 1e-9, including pairs of consecutive values; generated programs (begin, cells, pools, user functions, emit) run on several engines built from the same document, seed and "
        "multiplicity in different orders; non-trivial = at least two draws compared; distinct = distinct (document, inputs)")
ASSUMPTIONS = ["a real interval's upper end may be reached by rounding when the interval is only a few representable numbers wide",
               "which stream belongs to which seed is not specified, only that equal seeds give equal streams and different small non-negative seeds different ones"]
FACTOR = {"quick": 3, "thorough": 10}

IMIN, IMAX, LMIN, LMAX = -2 ** 31, 2 ** 31 - 1, -2 ** 63, 2 ** 63 - 1
INF = float("inf")
UUID = re.compile(r"\A[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-8[0-9a-f]{3}-[0-9a-f]{12}\Z")
UUID16 = re.compile(r"\A[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-8[0-9a-f]{3}-[0-9a-f]{16}\Z")


class F(object):
    """params, ret, gen(d, small) -> args, err(args) -> code or None, ok(args, value), bins(args) -> (function value -> list of bins, list of probabilities)"""
    def __init__(self, name, params, ret, gen, err, ok, bins=None):
        self.name, self.params, self.ret, self.gen, self.err, self.ok, self.bins = name, params, ret, gen, err, ok, bins


def arr(t):
    return {"type": "array", "items": t}


REC = {"type": "record", "name": "Bin", "fields": [{"name": "label", "type": "string"}, {"name": "prob", "type": "double"}]}


def introw(lo, hi):
    def gen(d, small):
        if small:
            if d.chance(1, 3):
                a = d.choice([lo, 0, -5])
                return [a, d.choice([hi, hi - 7, 2 ** 30])]
            a = d.choice([lo, hi - 12, 0, -3, d.int(-100, 100)])
            n = d.choice([1, 2, 3, 5, 8])
            return d.choice([[a, a + n], [hi - n, hi]])
        a = d.pfaint() if hi == IMAX else d.pfalong()
        b = d.weighted([(3, d.pfaint() if hi == IMAX else d.pfalong()), (2, min(hi, a + d.int(1, 5))), (1, a), (1, max(lo, a - 1))])
        return [a, b]
    return gen


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def intbins(a):
    """all values of a small range, the lowest three bits in a wide one"""
    lo, hi = a
    if hi - lo <= 16:
        return uniform(list(range(lo, hi)))
    return lambda v: v & 7, [0.125] * 8


def uniform(values):
    k = len(values)
    ix = {}
    for i, v in enumerate(values):
        ix.setdefault(v, []).append(i)
    return lambda v: ix[v][0], [float(len(ix.get(v, []))) / k if ix[v][0] == i else 0.0 for i, v in enumerate(values)]


def realrow(small_only):
    def gen(d, small):
        if small:
            a = d.choice([0.0, -1.0, 1e6, -2.5, 1e-9])
            return [a, a + d.choice([1.0, 0.5, 1024.0])]
        a = d.choice([0.0, -0.0, 1.0, -1e30, 1e30, 3.0e38, d.smallint(1000) / 8.0])
        b = d.choice([a, 0.0, 1.0, -1.0, 1e30, -1e30, 3.0e38, d.smallint(1000) / 8.0])
        return [a, b]
    return gen


def realok(a, v):
    lo, hi = a
    if not isinstance(v, float) and not isint(v):
        return False
    if v == hi:
        return hi - lo < 1e-12 * max(abs(lo), abs(hi))
    return lo <= v < hi


def realbins(a):
    lo, hi = a
    return lambda v: min(9, int(10 * (v - lo) / (hi - lo))), [0.1] * 10


def population(d, small):
    if small:
        return [d.smallint(3) if i and d.chance(1, 4) else 10 + i for i in range(d.int(2, 6))]
    return d.list(lambda: d.smallint(4), 0, 6)


def pairs(values, key):
    """bins of the first two draws of a sequence"""
    one, p = uniform(values)
    n = len(p)
    return lambda v: one(key(v, 0)) * n + one(key(v, 1)), [a * b for a in p for b in p]


def contained(small, big):
    big = list(big)
    for x in small:
        if x not in big:
            return False
        big.remove(x)
    return True


def samplebins(a):
    n, pop = a
    import itertools
    if len(set(pop)) != len(pop) or n < 1:
        return None
    subsets = [frozenset(x) for x in itertools.combinations(pop, n)]
    ix = {s: i for i, s in enumerate(subsets)}
    return lambda v: ix[frozenset(v)], [1.0 / len(subsets)] * len(subsets)


def weights(d, small):
    if small:
        w = [d.choice([0.0, 1.0, 2.0, 0.5, 3.25]) for _ in range(d.int(1, 6))]
        return w if sum(w) else w + [1.0]
    return d.list(lambda: d.choice([0.0, 0.0, 1.0, 0.25, 5e-324, 1e300, 1e-3, -1.0 if d.chance(1, 6) else 2.0, d.choice([INF, float("nan")]) if d.chance(1, 8) else 4.0]), 0, 6)


def histerr(w):
    # a bin that is not finite, or negative, is reported at the first that is wrong
    for x in w:
        if x != x or abs(x) == INF:
            return 34071
        if x < 0:
            return 34072
    if not sum(w) > 0:
        return 34070
    return None


def histbins(w):
    t = sum(w)
    return lambda v: v, [x / t for x in w]


def tobytes(v):
    return v.encode("latin-1") if isinstance(v, str) else v


def text(d, alphabet, lo, hi):
    return "".join(d.choice(alphabet) for _ in range(d.int(lo, hi)))


def size(d, small):
    return d.choice([2, 3, 4]) if small else d.choice([-2, 0, 1, 1, 2, 5, 40])


def strrange(bound, lowest, over):
    def gen(d, small):
        if small:
            n = d.choice([1, 2, 4])
            a = d.choice([lowest, 65, bound - n])
            return [2, a, a + n]
        a = d.choice([lowest - 1, lowest, 1, 65, 200, bound - 1, bound, bound + 1])
        b = d.choice([a - 1, a, a + 1, a + 5, lowest, 66, bound - 1, bound, bound + 1])
        return [size(d, False), a, b]
    return gen


def strerr(base, valid):
    def err(a):
        if a[0] <= 0:
            return base
        if a[2] <= a[1]:
            return base + 1
        if not valid(a[1], a[2]):
            return base + 2
        return None
    return err


FUNCS = [
    F("rand.int", [], "int", lambda d, s: [], lambda a: None, lambda a, v: isint(v) and IMIN <= v <= IMAX, lambda a: (lambda v: (v - IMIN) >> 28, [1 / 16.0] * 16)),
    F("rand.int", ["int", "int"], "int", introw(IMIN, IMAX), lambda a: 34000 if a[1] <= a[0] else None, lambda a, v: isint(v) and a[0] <= v < a[1], intbins),
    F("rand.long", [], "long", lambda d, s: [], lambda a: None, lambda a, v: isint(v) and LMIN <= v <= LMAX, lambda a: (lambda v: (v - LMIN) >> 60, [1 / 16.0] * 16)),
    F("rand.long", [], "long", lambda d, s: [], lambda a: None, lambda a, v: isint(v) and LMIN <= v <= LMAX, lambda a: (lambda v: v & 15, [1 / 16.0] * 16)),
    F("rand.long", ["long", "long"], "long", introw(LMIN, LMAX), lambda a: 34010 if a[1] <= a[0] else None, lambda a, v: isint(v) and a[0] <= v < a[1], intbins),
    F("rand.float", ["float", "float"], "float", realrow(True), lambda a: 34020 if a[1] <= a[0] else None, realok, realbins),
    F("rand.double", ["double", "double"], "double", realrow(False), lambda a: 34030 if a[1] <= a[0] else None, realok, realbins),
    F("rand.choice", [arr("int")], "int", lambda d, s: [population(d, s)], lambda a: 34040 if not a[0] else None, lambda a, v: v in a[0], lambda a: uniform(a[0])),
    F("rand.choice", [arr("string")], "string", lambda d, s: [[str(x) for x in population(d, s)]], lambda a: 34040 if not a[0] else None, lambda a, v: v in a[0], lambda a: uniform(a[0])),
    F("rand.choices", ["int", arr("int")], arr("int"), lambda d, s: [size(d, s), population(d, s)], lambda a: 34050 if not a[1] else None,
      lambda a, v: len(v) == max(0, a[0]) and all(x in a[1] for x in v), lambda a: pairs(a[1], lambda v, i: v[-i])),
    F("rand.sample", ["int", arr("int")], arr("int"), lambda d, s: [d.int(1, 2) if s else d.int(-2, 7), population(d, s)], lambda a: 34060 if not a[1] else 34061 if len(a[1]) < a[0] else None,
      lambda a, v: len(v) == max(0, a[0]) and contained(v, a[1]), samplebins),
    F("rand.histogram", [arr("double")], "int", lambda d, s: [weights(d, s)], lambda a: histerr(a[0]), lambda a, v: isint(v) and 0 <= v < len(a[0]) and a[0][v] > 0, lambda a: histbins(a[0])),
    F("rand.histogram", [arr(REC)], "Bin", lambda d, s: [[{"label": "l%d" % i, "prob": w} for i, w in enumerate(weights(d, s))]], lambda a: histerr([x["prob"] for x in a[0]]), lambda a, v: v in a[0] and v["prob"] > 0,
      lambda a: (lambda v: int(v["label"][1:]), histbins([x["prob"] for x in a[0]])[1])),
    F("rand.string", ["int"], "string", lambda d, s: [size(d, s)], lambda a: 34080 if a[0] <= 0 else None, lambda a, v: len(v) == a[0] and all(1 <= ord(c) < 0xD800 for c in v), lambda a: (lambda v: ord(v[0]) * 8 // 0xD800, [0.125] * 8)),
    F("rand.string", ["int", "string"], "string", lambda d, s: [size(d, s), text(d, u"abcx\u00e9\U0001f600", 2 if s else 0, 5)], lambda a: 34080 if a[0] <= 0 else 34083 if not a[1] else None,
      lambda a, v: len(v) == a[0] and all(c in a[1] for c in v), lambda a: pairs(list(a[1]), lambda v, i: v[-i])),
    F("rand.string", ["int", "int", "int"], "string", strrange(0xD800, 1, 0xD800), strerr(34080, lambda lo, hi: lo >= 1 and hi <= 0xD800), lambda a, v: len(v) == a[0] and all(a[1] <= ord(c) < a[2] for c in v),
      lambda a: pairs([chr(c) for c in range(a[1], a[2])], lambda v, i: v[-i])),
    F("rand.bytes", ["int"], "bytes", lambda d, s: [size(d, s)], lambda a: 34090 if a[0] <= 0 else None, lambda a, v: len(tobytes(v)) == a[0], lambda a: (lambda v: tobytes(v)[0] // 16, [1 / 16.0] * 16)),
    F("rand.bytes", ["int", "bytes"], "bytes", lambda d, s: [size(d, s), d.choice([lambda x: x, lambda x: x.encode("latin-1")])(text(d, u"abcx\u00e9\u00ff", 2 if s else 0, 5))], lambda a: 34090 if a[0] <= 0 else 34093 if not a[1] else None,
      lambda a, v: len(tobytes(v)) == a[0] and all(c in tobytes(a[1]) for c in tobytes(v)), lambda a: pairs(list(tobytes(a[1])), lambda v, i: tobytes(v)[-i])),
    F("rand.bytes", ["int", "int", "int"], "bytes", strrange(256, 0, 256), strerr(34090, lambda lo, hi: lo >= 0 and hi <= 256), lambda a, v: len(tobytes(v)) == a[0] and all(a[1] <= c < a[2] for c in tobytes(v)),
      lambda a: pairs(list(range(a[1], a[2])), lambda v, i: tobytes(v)[-i])),
    F("rand.uuid4", [], "string", lambda d, s: [], lambda a: None, lambda a, v: UUID.match(v) or UUID16.match(v), lambda a: (lambda v: int(v[0], 16), [1 / 16.0] * 16)),
    F("rand.gaussian", ["double", "double"], "double", lambda d, s: [d.choice([0.0, 10.0, -3.5]), d.choice([1.0, 2.5, 0.01] + ([] if s else [0.0]))], lambda a: None,
      lambda a, v: isinstance(v, float) and abs(v - a[0]) <= 12 * a[1], lambda a: (lambda v: min(9, int(10 * (0.5 + 0.5 * math.erf((v - a[0]) / a[1] / math.sqrt(2))))), [0.1] * 10)),
    F("a.shuffle", [arr("int")], arr("int"), lambda d, s: [population(d, s)], lambda a: None, lambda a, v: sorted(v) == sorted(a[0]),
      lambda a: (lambda v: a[0].index(v[0]), uniform(a[0])[1])),
]


def call_doc(f, seed, method="map"):
    fields = [{"name": "x%d" % i, "type": t} for i, t in enumerate(f.params)] + [{"name": "pad", "type": "null"}]
    return {"input": {"type": "record", "name": "In", "fields": fields}, "output": f.ret if f.ret != "Bin" or REC not in [p.get("items") for p in f.params if isinstance(p, dict)] else "Bin",
            "randseed": seed, "action": [{f.name: ["input.x%d" % i for i in range(len(f.params))]}]}


def record(f, args):
    return dict([("x%d" % i, a) for i, a in enumerate(args)], pad=None)


def seed_of(d):
    return d.weighted([(3, d.int(0, 1000)), (1, d.choice([0, 1, -1, 2 ** 31, 2 ** 63 - 1, -2 ** 63]))])


def ranges(d):
    f = d.choice(FUNCS)
    doc = call_doc(f, seed_of(d))
    d.note(doc)
    d.sut()
    e = build(doc)
    d.label(f.name)
    uuid = None
    for _ in range(3):
        args = f.gen(d, False)
        code = f.err(args)
        x = record(f, args)
        for _ in range(4 if code is None else 1):
            before = json.dumps(x, default=repr)
            got = outcome(e.action, x)
            d.nontrivial(repr((f.name, args)))
            if code is not None:
                if got != ("err", code):
                    raise Violation("%s(%s): got %s, expected error %d" % (f.name, show(args), show(got), code))
                continue
            if got[0] != "ok" or not f.ok(args, got[1]):
                raise Violation("%s(%s): got %s" % (f.name, show(args), show(got)))
            if f.name == "rand.uuid4" and not UUID.match(got[1]):
                uuid = got[1]
            if json.dumps(x, default=repr) != before:
                raise Violation("%s(%s) changed its argument to %s" % (f.name, show(args), show(x)))
    if uuid is not None:
        raise Violation("rand.uuid4: %s is not a UUID" % uuid, "uuid4-length")


def probe_uuid():
    e = build({"input": "null", "output": "string", "action": [{"rand.uuid4": []}]})
    return not UUID.match(e.action(None))


def chi2_bound(dof, x=20.7):
    return dof + 2 * math.sqrt(dof * x) + 2 * x


def chisquare(what, counts, probs, n):
    stat, dof = 0.0, -1
    rest, restp = 0, 0.0
    for c, p in zip(counts, probs):
        if p == 0.0:
            if c:
                raise Violation("%s: %d of %d results have probability zero" % (what, c, n))
        elif p * n < 20:
            rest, restp = rest + c, restp + p
        else:
            stat += (c - n * p) ** 2 / (n * p)
            dof += 1
    if restp * n >= 20:
        stat += (rest - n * restp) ** 2 / (n * restp)
        dof += 1
    if dof >= 1 and stat > 1.5 * chi2_bound(dof):
        raise Violation("%s: frequencies %s, expected %s (chi-square %.1f with %d degrees of freedom)" % (what, counts, [round(n * p, 1) for p in probs], stat, dof))


def distribution(d):
    f = d.choice([f for f in FUNCS if f.bins])
    args = f.gen(d, True)
    b = f.bins(args) if f.err(args) is None else None
    doc = call_doc(f, seed_of(d))
    d.note(doc)
    d.note(args)
    d.sut()
    e = build(doc)
    if b is None:
        d.label("skipped")
        return
    d.label(f.name)
    bin, probs = b
    N = 1500
    seq = []
    for i in range(N):
        v = e.action(record(f, args))
        if not f.ok(args, v):
            raise Violation("%s(%s): got %s" % (f.name, show(args), show(v)))
        seq.append(bin(v))
    d.nontrivial(repr((f.name, args, doc["randseed"])))
    what = "%s(%s)" % (f.name, show(args))
    counts = [0] * len(probs)
    for k in seq:
        counts[k] += 1
    chisquare(what, counts, probs, N)
    if len(probs) <= 8:
        # consecutive values are independent
        joint = [0] * len(probs) ** 2
        for a, b in zip(seq[::2], seq[1::2]):
            joint[a * len(probs) + b] += 1
        chisquare(what + " (pairs of consecutive values)", joint, [a * b for a in probs for b in probs], N // 2)


# --- reproducibility

def literal(v, t):
    return {"type": t if not isinstance(t, dict) or t.get("items") is not REC else arr("Bin"), "value": v}


class Prog(object):
    def __init__(self, d, seed):
        self.d = d
        self.entropy = False
        self.cells, self.pools, self.fcns = {}, {}, {}
        begin, outs, types = [], [], []
        method = d.choice(["map", "map", "emit", "fold"])
        for i in range(d.int(1, 4)):
            c, t = self.call(d)
            where = d.below(6)
            if where == 0:
                self.cells["c%d" % i] = {"type": ["null", t], "init": None, "shared": False}
                begin.append({"cell": "c%d" % i, "to": c})
                outs.append({"cell": "c%d" % i})
                types.append(["null", t])
                continue
            if where == 1:
                name = "f%d" % i
                self.fcns[name] = {"params": [{"p": "int"}], "ret": t, "do": [c]}
                c = {"u." + name: [i]}
            elif where == 2:
                self.cells["c%d" % i] = {"type": ["null", t], "init": None}
                outs.append({"do": [{"cell": "c%d" % i, "to": c}, {"cell": "c%d" % i}]})
                types.append(["null", t])
                continue
            elif where == 3:
                self.pools["p%d" % i] = {"type": arr(t)}
                pt = arr(t)
                outs.append({"do": [{"pool": "p%d" % i, "path": ["key"], "to": {"params": [{"old": pt}], "ret": pt, "do": [{"a.append": ["old", c]}]}, "init": {"type": pt, "new": []}},
                                    {"pool": "p%d" % i, "path": ["key"]}]})
                types.append(pt)
                continue
            elif where == 4:
                c = {"a.map": [{"type": arr("int"), "value": [1, 2, 3]}, {"params": [{"q": "int"}], "ret": t, "do": [c]}]}
                t = arr(t)
            outs.append(c)
            types.append(t)
        rec = {"type": "record", "name": "Out", "fields": [{"name": "o%d" % i, "type": t} for i, t in enumerate(types)]}
        new = {"type": "Out", "new": {"o%d" % i: o for i, o in enumerate(outs)}}
        self.method = method
        pre = [{"let": {"key": {"if": {"==": [{"%": ["input", 2]}, 0]}, "then": {"string": "even"}, "else": {"string": "odd"}}}}]
        doc = {"name": "Random", "input": "int", "output": rec, "cells": self.cells, "pools": self.pools, "fcns": self.fcns, "begin": begin, "method": method, "randseed": seed}
        if seed is None:
            del doc["randseed"]
        if method == "map":
            doc["action"] = pre + [new]
        elif method == "emit":
            doc["action"] = pre + [{"let": {"out": new}}, {"if": {">": ["input", 2]}, "then": {"emit": "out"}}, {"emit": "out"}]
            if d.bool():
                doc["end"] = [{"let": {"input": 1}}] + pre + [{"emit": new}]
        else:
            doc["output"] = arr(rec)
            doc["zero"] = []
            doc["action"] = pre + [{"a.append": ["tally", new]}]
            doc["merge"] = [{"a.concat": ["tallyOne", "tallyTwo"]}]
        self.doc = doc

    def call(self, d):
        while True:
            f = d.choice(FUNCS)
            if REC in [p.get("items") for p in f.params if isinstance(p, dict)]:
                continue
            args = f.gen(d, False) if d.chance(1, 6) else f.gen(d, True)
            if any(isinstance(a, float) and (a != a or abs(a) == INF) or isinstance(a, list) and any(isinstance(z, float) and (z != z or abs(z) == INF) for z in a) for a in args):
                continue
            if f.name in ("rand.long", "rand.int", "rand.uuid4", "rand.double") and f.err(args) is None and (not args or f.name == "rand.double"):
                self.entropy = True
            return {f.name: [literal(a.decode("latin-1") if isinstance(a, bytes) else a, t) for a, t in zip(args, f.params)]}, f.ret


class Run(object):
    """an engine together with everything it has put out"""
    def __init__(self, e, method):
        self.e, self.method, self.out = e, method, []
        if method == "emit":
            e.emit = lambda v: self.out.append(("emit", v))
        e.begin()

    def action(self, x):
        r = outcome(self.e.action, x)
        if self.method != "emit" or r[0] != "ok":
            self.out.append(r)

    def end(self):
        self.out.append(("end", outcome(self.e.end)[0]))


def run_all(d, e, method, xs):
    r = outcome(lambda: Run(e, method))
    if r[0] != "ok":
        return ["begin", r]
    r = r[1]
    for x in xs:
        r.action(x)
    r.end()
    return r.out


def reproduce(d):
    p = Prog(d, seed_of(d))
    xs = d.list(lambda: d.int(0, 6), 2, 6)
    d.note(p.doc)
    d.note(xs)
    d.sut()
    mk = lambda **kw: [build(json.loads(json.dumps(p.doc)), **kw)] if not kw else members(p.doc, **kw)
    first = run_all(d, mk()[0], p.method, xs)
    d.label(p.method, "entropy" if p.entropy else "low entropy")
    if len(first) > 2:
        d.nontrivial(repr((p.doc, xs)))
    # a second engine, run while others draw numbers too
    other = build(dict(json.loads(json.dumps(p.doc)), randseed=77))
    e = mk()[0]
    _pyrandom.seed(d.below(5))
    try:
        r, o = outcome(lambda: Run(e, p.method)), outcome(lambda: Run(other, p.method))
        if r[0] != "ok":
            again = ["begin", r]
        else:
            r, again = r[1], r[1].out
            for x in xs:
                if d.bool() and o[0] == "ok":
                    o[1].action(x)
                if d.chance(1, 4):
                    e.snapshot()
                if d.chance(1, 4):
                    _pyrandom.random()
                r.action(x)
            r.end()
    finally:
        _pyrandom.seed()
    if not same(first, again):
        raise Violation("two engines with seed %s and inputs %s: %s and %s" % (p.doc["randseed"], xs, show(first), show(again)))
    # through the document the engine writes of itself
    copy = run_all(d, build(json.loads(e.config.toJson())), p.method, xs)
    if not same(first, copy):
        raise Violation("an engine of the same document written by toJson: %s, was %s" % (show(copy), show(first)))
    n = d.int(1, 3)
    sets = members(p.doc, multiplicity=n)
    if not same(first, run_all(d, sets[0], p.method, xs)):
        raise Violation("the first of %d engines differs from a single engine" % n)


def members(doc, multiplicity):
    from titus.genpy import PFAEngine
    return PFAEngine.fromJson(json.loads(json.dumps(doc)), multiplicity=multiplicity)


def independent(d):
    """members of a set, engines of different seeds and engines without seed do not share a stream"""
    how = d.below(3)
    f = d.choice(["rand.long", "rand.int", "rand.uuid4"])
    ret = {"rand.long": "long", "rand.int": "int", "rand.uuid4": "string"}[f]
    doc = {"input": "null", "output": ret, "action": [{f: []}]}
    n, m = d.int(2, 5), 6
    if how == 0:
        doc["randseed"] = seed_of(d)
        es = members(doc, multiplicity=n)
    elif how == 1:
        seeds = d.sample(list(range(0, 12)) + [1000, 2 ** 31, 2 ** 31 + 1, 2 ** 40, 2 ** 40 + 2 ** 32], n)
        es = [build(dict(doc, randseed=s)) for s in seeds]
        d.note(seeds)
    else:
        es = members(doc, multiplicity=n) if d.bool() else [build(doc) for _ in range(n)]
    d.note((doc, n))
    d.sut()
    if len(es) != n:
        raise Violation("%d engines, expected %d" % (len(es), n))
    order = [i for i in range(n) for _ in range(m)]
    if d.bool():
        order = d.shuffle(order)
    out = [[] for _ in range(n)]
    for i in order:
        out[i].append(es[i].action(None))
    d.nontrivial(repr((doc, n, order)))
    d.label(["multiplicity", "seeds", "no seed"][how])
    # at most one of 6*5/2*36 pairs of 32-bit numbers collides by chance; whole streams never do
    for i in range(n):
        for j in range(i):
            common = len(set(out[i]) & set(out[j]))
            if common > 2:
                raise Violation("engines %d and %d share %d of %d random numbers: %s, %s" % (j, i, common, m, show(out[j]), show(out[i])))
        if len(set(out[i])) < m - 1:
            raise Violation("engine %d repeats itself: %s" % (i, show(out[i])))
    if how == 0:
        # a member's stream does not depend on the size of the set or on when the others run
        again = members(doc, multiplicity=n + d.below(3))
        for i in reversed(range(n)):
            got = [again[i].action(None) for _ in range(m)]
            if got != out[i]:
                raise Violation("member %d of %d engines: %s, of another set with the same seed: %s" % (i, n, show(out[i]), show(got)))


PROBES = {"uuid4-length": probe_uuid}
SUBS = [Sub("ranges", ranges, 500, 10000), Sub("distribution", distribution, 120, 1500), Sub("reproduce", reproduce, 250, 5000), Sub("independent", independent, 120, 2000)]
