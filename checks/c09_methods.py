"""C09: map, emit and fold engines process streams as specified."""
import json

import avt
import engines
from avt import toinput
from engines import outcome, refoutcome
from pbt import Violation, show
from runner import Sub
from progs import Program, RefEngine
from drive import Pair, pair

from titus.genpy import PFAEngine

RULE = ("streams: generated map, emit and fold engines with begin and end routines, driven through longer streams (with failing actions) as one or several instances and compared with the reference "
        "after every call: outputs, emitted values in order, tally, counters, routines run; split: folds with an associative merge over a generated stream, cut at generated points over several instances whose "
        "tallies are merged, against the fold of the whole stream; emitters: emit called from loops, callbacks, user functions and by reference, against the list of executed emits; "
        "a case is non-trivial when at least two actions succeeded; distinct = distinct documents and streams")
ASSUMPTIONS = []
FACTOR = {"quick": 3, "thorough": 6}


def streams(d):
    p = Program(d, d.choice(["emit", "fold", "fold", "map"]), depth=2)
    d.note(p.doc)
    n = d.choice([1, 1, 2, 3])
    try:
        es = PFAEngine.fromJson(p.doc, multiplicity=n)
    except Exception as e:
        raise Violation("a well-formed program is refused: %s %s" % (e, json.dumps(p.doc)))
    qs = []
    for i, e in enumerate(es):
        if e.instance != i:
            raise Violation("instance %d of %d has number %r" % (i, n, e.instance))
        qs.append(Pair(p, e, RefEngine(p, e.config.name, i)))
    d.sut()
    oks = 0
    for q in qs:
        q.begin()
    for _ in range(d.int(2, 8)):
        q = d.choice(qs)
        got, want = q.action(p.gen_input())
        oks += got[0] == "ok"
        if got[0] == "ok" and p.method == "fold" and not avt.match(got[1], q.ref.tally, p.output, p.env):
            q.fail("the output of a fold engine is not its tally")
        for x in qs:
            x.state("action of another instance")
    if p.method == "fold" and n > 1 and d.bool():
        a, b = qs[0], qs[1]
        ta, tb = a.engine.tally, b.engine.tally
        ra, rb = a.ref.tally, b.ref.tally
        got = a.both("merge of tallies", lambda: a.engine.merge(ta, tb), lambda: a.ref.domerge(ra, rb), p.output)
        d.label("merge")
        a.action(p.gen_input())
    for q in qs:
        q.end()
    d.label(p.method)
    if oks > 1:
        d.nontrivial(json.dumps(p.doc, sort_keys=True))


ARR = {"type": "array", "items": "int"}
REC = {"type": "record", "name": "T", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "long"}, {"name": "hi", "type": ["null", "int"]}]}

# name: (output type, zero, action, merge, python step)
FOLDS = {
    "sum": ("long", 0, {"+": ["tally", "input"]}, {"+": ["tallyOne", "tallyTwo"]}, 0, lambda t, x: t + x),
    "max": ("int", -2147483648, {"max": ["tally", "input"]}, {"max": ["tallyOne", "tallyTwo"]}, -2147483648, max),
    "list": (ARR, [], {"a.append": ["tally", "input"]}, {"a.concat": ["tallyOne", "tallyTwo"]}, [], lambda t, x: t + [x]),
    "string": ("string", "", {"s.concat": ["tally", {"s.int": ["input"]}]}, {"s.concat": ["tallyOne", "tallyTwo"]}, "", lambda t, x: t + str(x)),
    "count": ({"type": "map", "values": "int"}, {},
              {"map.add": ["tally", {"s.int": ["input"]}, {"if": {"map.containsKey": ["tally", {"s.int": ["input"]}]}, "then": {"+": [{"attr": "tally", "path": [{"s.int": ["input"]}]}, 1]}, "else": 1}]},
              [{"let": {"out": "tallyOne"}},
               {"forkey": "k", "forval": "v", "in": "tallyTwo", "do": [
                   {"set": {"out": {"map.add": ["out", "k", {"if": {"map.containsKey": ["out", "k"]}, "then": {"+": ["v", {"attr": "out", "path": ["k"]}]}, "else": "v"}]}}}]},
               "out"],
              {}, lambda t, x: dict(t, **{str(x): t.get(str(x), 0) + 1})),
    "record": (REC, {"n": 0, "s": 0, "hi": None},
               {"new": {"n": {"+": ["tally.n", 1]}, "s": {"+": ["tally.s", "input"]},
                        "hi": {"ifnotnull": {"h": "tally.hi"}, "then": {"max": ["h", "input"]}, "else": "input"}}, "type": "T"},
               {"new": {"n": {"+": ["tallyOne.n", "tallyTwo.n"]}, "s": {"+": ["tallyOne.s", "tallyTwo.s"]},
                        "hi": {"ifnotnull": {"a": "tallyOne.hi", "b": "tallyTwo.hi"}, "then": {"upcast": {"max": ["a", "b"]}, "as": ["null", "int"]},
                               "else": {"if": {"==": ["tallyOne.hi", None]}, "then": "tallyTwo.hi", "else": "tallyOne.hi"}}}, "type": "T"},
               {"n": 0, "s": 0, "hi": None}, lambda t, x: {"n": t["n"] + 1, "s": t["s"] + x, "hi": x if t["hi"] is None else max(t["hi"], x)}),
}


def plain(v):
    if isinstance(v, dict) and len(v) == 1 and "int" in v:
        return v["int"]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def split(d):
    name = d.choice(sorted(FOLDS))
    out, zero, action, merge, z, step = FOLDS[name]
    fails = d.chance(1, 3)
    act = [{"if": {"==": ["input", 13]}, "then": [{"error": "unlucky"}]}, action] if fails else action
    doc = {"input": "int", "output": out, "method": "fold", "zero": zero, "action": act, "merge": merge}
    xs = d.list(lambda: d.choice([13, 13, 1, 2, -5, 7, 100000]) if fails else d.int(-20, 20), 0, 12)
    k = d.int(1, 4)
    d.note([name, xs, k])
    es = PFAEngine.fromJson(doc, multiplicity=k)
    cuts = sorted(d.below(len(xs) + 1) for _ in range(k - 1))
    d.sut()
    want = z
    for i, e in enumerate(es):
        lo = cuts[i - 1] if i else 0
        hi = cuts[i] if i < k - 1 else len(xs)
        part = z
        e.begin()
        for x in xs[lo:hi]:
            r = outcome(e.action, x)
            if fails and x == 13:
                if r[:2] != ("user", "unlucky"):
                    raise Violation("%s: action(13) gave %s" % (name, show(r)))
            else:
                part = step(part, x)
                want = step(want, x)
                if r[0] != "ok" or plain(r[1]) != part:
                    raise Violation("%s fold of %s so far gave %s, expected %s" % (name, xs[lo:hi], show(r), show(part)))
            if plain(e.tally) != part:
                raise Violation("%s: the tally after %s is %s, expected %s" % (name, x, show(e.tally), show(part)))
    # merge in order, in a generated association
    ts = [e.tally for e in es]
    while len(ts) > 1:
        i = d.below(len(ts) - 1)
        e = d.choice(es)
        ts[i:i + 2] = [e.merge(ts[i], ts[i + 1])]
        if plain(e.tally) != plain(ts[i]):
            raise Violation("%s: merge returned %s but the tally is %s" % (name, show(ts[i]), show(e.tally)))
    if plain(ts[0]) != want:
        raise Violation("%s over %s cut at %s and merged gave %s, expected %s" % (name, xs, cuts, show(ts[0]), show(want)))
    if len(xs) > 1:
        d.nontrivial(repr((name, xs, cuts)))


def emitters(d):
    """emit from many places; the expected list is computed alongside"""
    n = [0]

    def piece(depth):
        k = d.below(8 if depth else 2)
        n[0] += 1
        i = n[0]
        if k == 0:
            return {"emit": {"+": ["x", i]}}, lambda x: [x + i]
        if k == 1:
            return {"do": [{"emit": [i]}, None]}, lambda x: [i]
        if k == 2:
            j, f = piece(depth - 1)
            m = d.below(4)
            v = "v%d" % i
            return {"foreach": v, "in": {"type": ARR, "value": list(range(m))}, "do": [{"emit": v}, j]}, lambda x: [z for q in range(m) for z in [q] + f(x)]
        if k == 3:
            # emit passed by reference
            m = d.int(0, 3)
            return {"do": [{"a.map": [{"type": ARR, "value": [i + q for q in range(m)]}, {"fcn": "emit"}]}, None]}, lambda x: [i + q for q in range(m)]
        if k == 4:
            j, f = piece(depth - 1)
            return {"if": {">": ["x", i]}, "then": [j], "else": [None]}, lambda x: f(x) if x > i else []
        if k == 5:
            j, f = piece(depth - 1)
            nm = "f%d" % i
            fcns[nm] = {"params": [{"x": "int"}], "ret": "null", "do": [j, None]}
            return {"u." + nm: [{"+": ["x", 1]}]}, lambda x: f(x + 1)
        if k == 6:
            a, f = piece(depth - 1)
            b, g = piece(depth - 1)
            return {"do": [a, b]}, lambda x: f(x) + g(x)
        j, f = piece(depth - 1)
        return {"try": [j, {"emit": i}, {"error": "x"}, {"emit": -1}, 1]}, lambda x: f(x) + [i]
    fcns = {}
    parts = [piece(3) for _ in range(d.int(1, 4))]
    doc = {"input": "int", "output": "int", "method": "emit", "action": [{"let": {"x": "input"}}] + [p[0] for p in parts]}
    if fcns:
        doc["fcns"] = fcns
    d.note(doc)
    kind, e = engines.compile_outcome(doc)
    if kind != "ok":
        raise Violation("a well-formed emit program is refused: %s %s" % (e, json.dumps(doc)))
    out = []
    e.emit = out.append
    d.sut()
    want = []
    for x in d.list(lambda: d.int(0, 10), 1, 4):
        r = e.action(x)
        want += [z for p in parts for z in p[1](x)]
        if r is not None or out != want:
            raise Violation("emitted %s, expected %s (returned %r): %s" % (show(out), show(want), r, json.dumps(doc)))
    if want:
        d.nontrivial(json.dumps(doc, sort_keys=True))


SUBS = [Sub("streams", streams, 400, 10000), Sub("split", split, 500, 15000), Sub("emitters", emitters, 400, 10000)]
