"""C25: function-taking array and map functions against their defining comprehension, with a log of the calls made."""
import copy
import json
from functools import cmp_to_key, reduce

from pbt import Violation, same, show
from runner import Sub
from engines import build, outcome, refoutcome, Err, UserErr, norm

RULE = ("one case = one generated collection (ints, doubles, strings, records, nullable ints; up to 6 items) and one generated callback given inline, by reference "
        "or with a filled parameter; the callback appends its arguments to a cell, and may raise a user error at a chosen value; result, error and the sequence of "
        "calls are compared; non-trivial = some collection is not empty; distinct = distinct (function, callback, collections)")
ASSUMPTIONS = ["the order in which the items of a map are visited is unspecified", "callbacks of sorting and extrema are compared by result only"]

REC = {"type": "record", "name": "Rec", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "string"}]}
TYPES = {"int": "int", "double": "double", "string": "string", "rec": REC, "opt": ["null", "int"]}


def gen(d, t):
    if t == "int":
        return d.smallint(4)
    if t == "double":
        return d.smallint(4) / 2.0
    if t == "string":
        return d.str("ab", 0, 3)
    if t == "rec":
        return {"a": d.smallint(3), "b": d.str("ab", 0, 2)}
    if t == "opt":
        return None if d.chance(1, 3) else {"int": d.smallint(3)}
    if t == "boolean":
        return d.bool()


def plain(v, t):
    if t == "opt" and isinstance(v, dict):
        return v["int"]
    return v


# expression generator over typed parameters: (json, python function of the plain values)

def as_int(p, t):
    if t == "int":
        return p, lambda v: v
    if t == "string":
        return {"s.len": [p]}, len
    if t == "double":
        return {"if": {">": [p, 0.6]}, "then": 3, "else": 1}, lambda v: 3 if v > 0.6 else 1
    if t == "rec":
        return {"attr": p, "path": [{"string": "a"}]}, lambda v: v["a"]
    if t == "opt":
        return {"ifnotnull": {"nn": p}, "then": "nn", "else": -5}, lambda v: -5 if v is None else v


def as_str(p, t):
    if t == "string":
        return p, lambda v: v
    if t == "rec":
        return {"attr": p, "path": [{"string": "b"}]}, lambda v: v["b"]
    j, f = as_int(p, t)
    return {"s.int": [j]}, lambda v: str(f(v))


def expr(d, ret, params):
    """params: [(name, type)] -> (json, fn(*values))"""
    if ret == "int":
        parts = [as_int(n, t) for n, t in params]
        ws = [d.choice([1, 2, 3, 5, -1]) for _ in parts]
        c = d.smallint(3)
        j = c
        for (pj, _), w in zip(parts, ws):
            j = {"+": [j, pj if w == 1 else {"*": [w, pj]}]}
        return j, lambda *v: c + sum(w * f(x) for (_, f), w, x in zip(parts, ws, v))
    if ret == "double":
        j, f = expr(d, "int", params)
        return {"/": [j, 2]}, lambda *v: f(*v) / 2.0
    if ret == "string":
        parts = [as_str(n, t) for n, t in params]
        sep = d.choice(["", "-"])
        j = {"string": sep}
        for pj, _ in parts:
            j = {"s.concat": [j, pj]}
        return j, lambda *v: sep + "".join(f(x) for (_, f), x in zip(parts, v))
    if ret == "boolean":
        j, f = expr(d, "int", params)
        k = d.below(3)
        c = d.smallint(4)
        if k == 0:
            return {"<": [j, c]}, lambda *v: f(*v) < c
        if k == 1:
            return {"==": [{"&": [j, 1]}, 1]}, lambda *v: f(*v) & 1 == 1
        return {"!=": [j, c]}, lambda *v: f(*v) != c
    if ret == "rec":
        ja, fa = expr(d, "int", params)
        jb, fb = expr(d, "string", params)
        return {"type": "Rec", "new": {"a": ja, "b": jb}}, lambda *v: {"a": fa(*v), "b": fb(*v)}
    if isinstance(ret, tuple) and ret[0] == "or-null":
        jc, fc = expr(d, "boolean", params)
        jv, fv = expr(d, ret[1], params)
        return ({"cond": [{"if": jc, "then": jv}], "else": None}, lambda *v: fv(*v) if fc(*v) else None)
    if isinstance(ret, tuple) and ret[0] == "array":
        es = [expr(d, ret[1], params) for _ in range(d.below(3))]
        return ({"type": {"type": "array", "items": TYPES[ret[1]] if ret[1] != "rec" else "Rec"}, "new": [j for j, _ in es]},
                lambda *v: [f(*v) for _, f in es])
    if isinstance(ret, tuple) and ret[0] == "map":
        es = [(expr(d, "string", params), expr(d, ret[1], params)) for _ in range(d.below(3))]
        items = {"type": "map", "values": TYPES[ret[1]] if ret[1] != "rec" else "Rec"}
        j = {"type": items, "new": {}}
        for (jk, _), (jv, _) in es:
            j = {"map.add": [j, jk, jv]}
        return j, lambda *v: dict((fk(*v), fv(*v)) for (_, fk), (_, fv) in es)
    raise AssertionError(ret)


def tjson(t):
    if isinstance(t, tuple):
        if t[0] == "or-null":
            return [tjson(t[1]), "null"]
        if t[0] == "array":
            return {"type": "array", "items": tjson(t[1])}
        if t[0] == "map":
            return {"type": "map", "values": tjson(t[1])}
    return "Rec" if t == "rec" else TYPES.get(t, t)


def logged(d, ret, ptypes):
    """callback: (params, body list, python function(log) -> fn)"""
    params = [("p%d" % i, t) for i, t in enumerate(ptypes)]
    j, f = expr(d, ret, params)
    js, fs = expr(d, "string", params)
    body = [{"cell": "log", "to": {"params": [{"old": {"type": "array", "items": "string"}}], "ret": {"type": "array", "items": "string"},
                                   "do": [{"a.append": ["old", js]}]}}]
    # the updater is an inline function and sees only its own parameters: compute the entry before
    body = [{"let": {"entry": js}}, {"cell": "log", "to": {"a.append": [{"cell": "log"}, "entry"]}}]
    fail = None
    if d.chance(1, 4):
        jc, fc = expr(d, "int", params)
        c = d.smallint(5)
        code = d.choice([None, -3, -12])
        fail = (fc, c, code)
        e = {"error": "boom"}
        if code is not None:
            e["code"] = code
        body.append({"if": {"==": [jc, c]}, "then": e})
    body.append(j)

    def bind(log):
        def call(*v):
            log.append(fs(*v))
            if fail is not None and fail[0](*v) == fail[1]:
                raise UserErr("boom", fail[2])
            return f(*v)
        return call
    return params, body, bind


def fnarg(d, params, ret, body):
    form = d.below(4)
    plist = [{n: tjson(t)} for n, t in params]
    if form == 0:
        return {"params": plist, "ret": tjson(ret), "do": body}, {}
    if form == 1:
        return {"fcn": "u.cb"}, {"cb": {"params": plist, "ret": tjson(ret), "do": body}}
    if form == 2:
        i = d.below(len(plist) + 1)
        return ({"fcn": "u.cb", "fill": {"unused": 1}}, {"cb": {"params": plist[:i] + [{"unused": "int"}] + plist[i:], "ret": tjson(ret), "do": body}})
    # an inline function that calls a user function
    return ({"params": plist, "ret": tjson(ret), "do": [{"u.cb": [n for n, _ in params]}]}, {"cb": {"params": plist, "ret": tjson(ret), "do": body}})


def strip(v, ret):
    """engine result -> plain value for comparison (nullable ints untagged)"""
    if ret == "opt" or isinstance(ret, tuple) and ret[0] == "or-null":
        if isinstance(v, dict) and len(v) == 1 and list(v)[0] in ("int", "string", "double", "Rec", "boolean"):
            return list(v.values())[0]
        return v
    if isinstance(ret, tuple) and ret[0] == "array":
        return [strip(x, ret[1]) for x in v]
    if isinstance(ret, tuple) and ret[0] == "map":
        return {k: strip(x, ret[1]) for k, x in v.items()}
    return v


def run(d, fcn, data, rettype, cb, ref, logcmp, extra_args=None):
    """data: [(type, value)] arguments before the function; cb = (params, ret, body, bind)"""
    params, cret, body, bind = cb
    fj, fcns = fnarg(d, params, cret, body)
    fields = [{"name": "recdecl", "type": ["null", REC]}] + [{"name": "x%d" % i, "type": tjson(t)} for i, (t, _) in enumerate(data)] + \
             [{"name": "peek", "type": "boolean"}]
    args = ["input.x%d" % i for i in range(len(data))]
    args.append(fj)
    if "foldlike" in (extra_args or ()):
        pass
    strs = {"type": "array", "items": "string"}
    doc = {"input": {"type": "record", "name": "In", "fields": fields},
           "output": {"type": "record", "name": "Out", "fields": [{"name": "r", "type": {"type": "array", "items": tjson(rettype)}}, {"name": "log", "type": strs}]},
           "method": "emit", "cells": {"log": {"type": strs, "init": []}}, "fcns": fcns,
           "action": [{"if": "input.peek", "then": {"emit": {"type": "Out", "new": {"r": {"type": {"type": "array", "items": tjson(rettype)}, "new": []},
                                                                                    "log": {"cell": "log"}}}},
                       "else": [{"let": {"r": {fcn: args}}},
                                {"emit": {"type": "Out", "new": {"r": {"type": {"type": "array", "items": tjson(rettype)}, "new": ["r"]}, "log": {"cell": "log"}}}}]}]}
    d.note({"fcn": fcn, "args": [v for _, v in data], "callback": fj, "fcns": fcns})
    d.sut()
    e = build(doc)
    got = []
    e.emit = got.append
    datum = {"x%d" % i: copy.deepcopy(v) for i, (_, v) in enumerate(data)}
    datum.update(recdecl=None, peek=False)
    keep = copy.deepcopy(datum)
    o = outcome(e.action, datum)
    if not same(keep, datum):
        raise Violation("%s changed its input: %s -> %s" % (fcn, show(keep), show(datum)))
    datum["peek"] = True
    e.action(datum)
    log = [norm(x) for x in got[-1]["log"]]
    if o[0] == "ok":
        if len(got) != 2:
            raise Violation("%s: %d emits" % (fcn, len(got)))
        o = ("ok", strip(norm(got[0]["r"][0]), rettype))
    wlog = []
    want = refoutcome(ref, *([plain_deep(v, t) for t, v in data] + [bind(wlog)]))
    what = "%s(%s) with callback %s %s" % (fcn, ", ".join(repr(v) for _, v in data), json.dumps(fj)[:700], json.dumps(fcns)[:500])
    if o[0] != want[0] or (o[0] == "ok" and not same(o[1], want[1])) or (o[0] != "ok" and o != want):
        if not (o[0] == want[0] == "user" and logcmp == "bag"):
            raise Violation("%s: got %s, expected %s" % (what, show(o), show(want)))
    if logcmp == "seq" and log != wlog:
        raise Violation("%s: callback calls %s, expected %s" % (what, log, wlog))
    if logcmp == "bag" and o[0] == "ok" and sorted(log) != sorted(wlog):
        raise Violation("%s: callback calls %s, expected (in any order) %s" % (what, log, wlog))
    if any(v for _, v in data):
        d.nontrivial(repr((fcn, data, json.dumps(fj, sort_keys=True), json.dumps(fcns, sort_keys=True))))
    d.label(o[0] if o[0] != "err" else "err %s" % o[1])


def plain_deep(v, t):
    if t == "opt":
        return plain(v, t)
    if isinstance(t, tuple) and t[0] == "array":
        return [plain_deep(x, t[1]) for x in v]
    if isinstance(t, tuple) and t[0] == "map":
        return {k: plain_deep(x, t[1]) for k, x in v.items()}
    return v


AT = ["int", "double", "string", "rec", "opt"]
BT = ["int", "double", "string", "rec"]


def arr(d, t, n=None):
    if n is not None:
        return [gen(d, t) for _ in range(n)]
    return d.list(lambda: gen(d, t), 0, 6)


def mp(d, t, keys=None):
    if keys is not None:
        return {k: gen(d, t) for k in d.shuffle(keys)}
    return {d.choice(["a", "b", "bb", "c", "dd", ""]): gen(d, t) for _ in range(d.below(6))}


SUBS = []


def sub(name, fn, quick=100):
    SUBS.append(Sub(name, fn, quick, quick * 20))


def simple(fcn, ret, cbret, ref, index=None, coll="array", logcmp=None):
    """one collection, one callback. ret/cbret: functions of (A, B)"""
    def case(d):
        A, B = d.choice(AT), d.choice(BT)
        v = arr(d, A) if coll == "array" else mp(d, A)
        pt = ([index] if index else []) + [A]
        params, body, bind = logged(d, cbret(A, B), pt)
        run(d, fcn, [((coll, A), v)], ret(A, B), (params, cbret(A, B), body, bind), ref, logcmp or ("seq" if coll == "array" else "bag"))
    sub(fcn, case)


RA = lambda A, B: ("array", A)
RB = lambda A, B: ("array", B)
MA = lambda A, B: ("map", A)
MB = lambda A, B: ("map", B)
CB = lambda A, B: B
BOOL = lambda A, B: "boolean"
ORNULL = lambda A, B: ("or-null", B)


def filtered(ys):
    return [y for y in ys if y is not None]


simple("a.map", RB, CB, lambda a, f: [f(x) for x in a])
simple("a.mapWithIndex", RB, CB, lambda a, f: [f(i, x) for i, x in enumerate(a)], "int")
simple("a.filter", RA, BOOL, lambda a, f: [x for x in a if f(x)])
simple("a.filterWithIndex", RA, BOOL, lambda a, f: [x for i, x in enumerate(a) if f(i, x)], "int")
simple("a.filterMap", RB, ORNULL, lambda a, f: filtered([f(x) for x in a]))
simple("a.filterMapWithIndex", RB, ORNULL, lambda a, f: filtered([f(i, x) for i, x in enumerate(a)]), "int")
simple("a.flatMap", RB, RB, lambda a, f: [y for x in a for y in f(x)])
simple("a.flatMapWithIndex", RB, RB, lambda a, f: [y for i, x in enumerate(a) for y in f(i, x)], "int")


def takewhile(a, f):
    out = []
    for x in a:
        if not f(x):
            break
        out.append(x)
    return out


def dropwhile(a, f):
    for i, x in enumerate(a):
        if not f(x):
            return a[i:]
    return []


def groupby(a, f):
    out = {}
    for x in a:
        out.setdefault(f(x), []).append(x)
    return out


simple("a.takeWhile", RA, BOOL, takewhile)
simple("a.dropWhile", RA, BOOL, dropwhile)
simple("a.any", BOOL, BOOL, lambda a, f: any(f(x) for x in a))
simple("a.all", BOOL, BOOL, lambda a, f: all(f(x) for x in a))
simple("a.groupby", lambda A, B: ("map", ("array", A)), lambda A, B: "string", groupby)
simple("a.count", lambda A, B: "int", BOOL, lambda a, f: sum([1 if f(x) else 0 for x in a]))
simple("a.contains", BOOL, BOOL, lambda a, f: any([f(x) for x in a]), logcmp="none")


def first(a, f):
    hits = [i for i, x in enumerate(a) if f(x)]
    return hits[0] if hits else -1


def last(a, f):
    hits = [i for i, x in enumerate(a) if f(x)]
    return hits[-1] if hits else -1


def nofail(sub_):
    return sub_


simple("map.map", MB, CB, lambda m, f: {k: f(v) for k, v in m.items()}, coll="map")
simple("map.mapWithKey", MB, CB, lambda m, f: {k: f(k, v) for k, v in m.items()}, "string", coll="map")
simple("map.filter", MA, BOOL, lambda m, f: {k: v for k, v in m.items() if f(v)}, coll="map")
simple("map.filterWithKey", MA, BOOL, lambda m, f: {k: v for k, v in m.items() if f(k, v)}, "string", coll="map")
simple("map.filterMap", MB, ORNULL, lambda m, f: {k: w for k, w in [(k, f(v)) for k, v in m.items()] if w is not None}, coll="map")
simple("map.filterMapWithKey", MB, ORNULL, lambda m, f: {k: w for k, w in [(k, f(k, v)) for k, v in m.items()] if w is not None}, "string", coll="map")


def predicate_search(d):
    """a.contains, a.index, a.rindex, a.count, map.containsKey, map.containsValue with predicates that do not fail"""
    A = d.choice(AT)
    fcn = d.choice(["a.contains", "a.index", "a.rindex", "map.containsKey", "map.containsValue"])
    pt = ["string"] if fcn == "map.containsKey" else [A]
    for _ in range(20):
        params, body, bind = logged(d, "boolean", pt)
        if len(body) == 3:
            break
    else:
        from pbt import Discard
        raise Discard()
    if fcn.startswith("a."):
        ref = {"a.contains": lambda a, f: any([f(x) for x in a]), "a.index": first, "a.rindex": last}[fcn]
        run(d, fcn, [(("array", A), arr(d, A))], "boolean" if fcn == "a.contains" else "int", (params, "boolean", body, bind), ref, "none")
    else:
        ref = (lambda m, f: any([f(k) for k in m])) if fcn == "map.containsKey" else (lambda m, f: any([f(v) for v in m.values()]))
        run(d, fcn, [(("map", A), mp(d, A))], "boolean", (params, "boolean", body, bind), ref, "none")


sub("predicate-search", predicate_search, 300)
SUBS[:] = [s for s in SUBS if s.name != "a.contains"]


def flatmap_map(withkey):
    def case(d):
        A, B = d.choice(AT), d.choice(BT)
        m = mp(d, A)
        pt = (["string"] if withkey else []) + [A]
        params, body, bind = logged(d, ("map", B), pt)
        # results under colliding keys depend on the (unspecified) order of visits: require equal values in that case
        clash = []

        def ref(m, f):
            out = {}
            for k, v in m.items():
                for a, b in (f(k, v) if withkey else f(v)).items():
                    if a in out and out[a] != b:
                        clash.append(a)
                    out[a] = b
            return out
        probe = refoutcome(ref, {k: plain_deep(v, A) for k, v in m.items()}, bind([]))
        if clash:
            from pbt import Discard
            raise Discard()
        run(d, "map.flatMap" + ("WithKey" if withkey else ""), [(("map", A), m)], ("map", B), (params, ("map", B), body, bind), ref, "bag")
    return case


sub("map.flatMap", flatmap_map(False))
sub("map.flatMapWithKey", flatmap_map(True))


def zips(fcn, index, coll, errcode):
    def case(d):
        n = d.int(2, 4)
        ts = [d.choice(AT) for _ in range(n)]
        Z = d.choice(BT)
        if coll == "array":
            ln = d.below(5)
            lens = [ln] * n
            if d.chance(1, 5):
                lens[d.below(n)] += d.choice([1, 2])
            data = [(("array", t), arr(d, t, k)) for t, k in zip(ts, lens)]
        else:
            keys = d.sample(["a", "b", "bb", "c", "dd"], d.below(5))
            data = [(("map", t), mp(d, t, keys)) for t in ts]
            if d.chance(1, 5):
                i = d.below(n)
                if d.bool():
                    data[i][1]["zz"] = gen(d, ts[i])
                else:
                    if keys:
                        data[i][1].pop(keys[0])
                    data[i][1]["yy"] = gen(d, ts[i])
        params, body, bind = logged(d, Z, ([index] if index else []) + ts)

        def ref(*args):
            f = args[-1]
            cs = args[:-1]
            if coll == "array":
                if len(set(len(c) for c in cs)) != 1:
                    raise Err(errcode)
                return [f(*(([i] if index else []) + list(xs))) for i, xs in enumerate(zip(*cs))]
            if any(set(c) != set(cs[0]) for c in cs):
                raise Err(errcode)
            return {k: f(*(([k] if index else []) + [c[k] for c in cs])) for k in cs[0]}
        run(d, fcn, data, (coll, Z), (params, Z, body, bind), ref, "seq" if coll == "array" else "bag")
    sub(fcn, case, 150)


zips("a.zipmap", None, "array", 15650)
zips("a.zipmapWithIndex", "int", "array", 15660)
zips("map.zipmap", None, "map", 26370)
zips("map.zipmapWithKey", "string", "map", 26380)


def corresponds(fcn, index, coll):
    def case(d):
        A, B = d.choice(AT), d.choice(AT)
        if coll == "array":
            n = d.below(5)
            data = [(("array", A), arr(d, A, n)), (("array", B), arr(d, B, n + (1 if d.chance(1, 5) else 0)))]
        else:
            keys = d.sample(["a", "b", "bb", "c"], d.below(4))
            data = [(("map", A), mp(d, A, keys)), (("map", B), mp(d, B, keys))]
            if d.chance(1, 5):
                data[d.below(2)][1]["zz"] = gen(d, A) if False else None
                for i in (0, 1):
                    if data[i][1].get("zz", 0) is None:
                        data[i][1]["zz"] = gen(d, (A, B)[i])
        params, body, bind = logged(d, "boolean", ([index] if index else []) + [A, B])

        def ref(a, b, f):
            if coll == "array":
                return len(a) == len(b) and all(f(*(([i] if index else []) + [x, y])) for i, (x, y) in enumerate(zip(a, b)))
            if set(a) != set(b):
                return False
            if len(body) == 4:
                # which pair fails or answers first depends on the order of visits
                res = [refoutcome(f, *(([k] if index else []) + [a[k], b[k]])) for k in a]
                if any(r[0] != "ok" for r in res) and any(r == ("ok", False) for r in res):
                    from pbt import Discard
                    raise Discard()
                for r in res:
                    if r[0] != "ok":
                        raise UserErr(r[1], r[2])
                return all(r[1] for r in res)
            return all([f(*(([k] if index else []) + [a[k], b[k]])) for k in a])
        run(d, fcn, data, "boolean", (params, "boolean", body, bind), ref, "seq" if coll == "array" else "none")
    sub(fcn, case, 120)


corresponds("a.corresponds", None, "array")
corresponds("a.correspondsWithIndex", "int", "array")
corresponds("map.corresponds", None, "map")
corresponds("map.correspondsWithKey", "string", "map")


def reduces(fcn, right, errcode):
    def case(d):
        A = d.choice(BT)
        a = arr(d, A)
        params, body, bind = logged(d, A, [A, A])

        def ref(a, f):
            if not a:
                raise Err(errcode)
            if right:
                acc = a[-1]
                for x in reversed(a[:-1]):
                    acc = f(x, acc)
                return acc
            acc = a[0]
            for x in a[1:]:
                acc = f(acc, x)
            return acc
        run(d, fcn, [(("array", A), a)], A, (params, A, body, bind), ref, "seq")
    sub(fcn, case, 120)


reduces("a.reduce", False, 15670)
reduces("a.reduceRight", True, 15680)


def folds(fcn, right):
    def case(d):
        A, B = d.choice(AT), d.choice(BT)
        a, z = arr(d, A), gen(d, B)
        params, body, bind = logged(d, B, [A, B] if right else [B, A])

        def ref(a, acc, f):
            for x in (reversed(a) if right else a):
                acc = f(x, acc) if right else f(acc, x)
            return acc
        run(d, fcn, [(("array", A), a), (B, z)], B, (params, B, body, bind), ref, "seq")
    sub(fcn, case, 120)


folds("a.fold", False)
folds("a.foldRight", True)


def orderings(d):
    """sortLT and the extrema by comparison, with a strict weak order given by an integer key"""
    A = d.choice(AT)
    jk, fk = as_int("p0", A)
    jk2, _ = as_int("p1", A)
    desc = d.bool()
    rel = {">" if desc else "<": [jk, jk2]}
    fcn = d.choice(["a.sortLT", "a.maxLT", "a.minLT", "a.maxNLT", "a.minNLT", "a.argmaxLT", "a.argminLT", "a.argmaxNLT", "a.argminNLT",
                    "map.argmaxLT", "map.argminLT", "map.argmaxNLT", "map.argminNLT"])
    ismap = fcn.startswith("map.")
    isN = "NLT" in fcn
    v = mp(d, A) if ismap else arr(d, A)
    n = d.int(-1, 7)
    fj, fcns = fnarg(d, [("p0", A), ("p1", A)], "boolean", [rel])
    key = (lambda x: -fk(plain(x, A))) if desc else (lambda x: fk(plain(x, A)))
    coll = ("map", A) if ismap else ("array", A)
    ret = ("array", A) if fcn in ("a.sortLT", "a.maxNLT", "a.minNLT") else A if fcn in ("a.maxLT", "a.minLT") else \
        ("array", "string") if ismap and isN else "string" if ismap else ("array", "int") if isN else "int"
    args = ["input.x"] + (["input.n"] if isN else []) + [fj]
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "recdecl", "type": ["null", REC]}, {"name": "x", "type": tjson(coll)},
                                                                {"name": "n", "type": "int"}]},
           "output": tjson(ret), "fcns": fcns, "action": [{fcn: args}]}
    d.note({"fcn": fcn, "args": [v, n], "callback": fj})
    d.sut()
    o = outcome(build(doc).action, {"recdecl": None, "x": copy.deepcopy(v), "n": n})
    codes = {"a.maxLT": 15260, "a.minLT": 15270, "a.maxNLT": 15300, "a.minNLT": 15310, "a.argmaxLT": 15340, "a.argminLT": 15350, "a.argmaxNLT": 15380,
             "a.argminNLT": 15390, "map.argmaxLT": 26140, "map.argminLT": 26150, "map.argmaxNLT": 26180, "map.argminNLT": 26190}
    what = "%s(%r%s) ordering by %s" % (fcn, v, ", %d" % n if isN else "", json.dumps(rel))
    if fcn == "a.sortLT":
        want = sorted(v, key=key)
        if o[0] != "ok" or not same(norm([strip(x, A) for x in o[1]]), [plain(x, A) for x in want]):
            raise Violation("%s: got %s, expected %s" % (what, show(o), show(want)))
    elif not v:
        if o != ("err", codes[fcn]):
            raise Violation("%s: got %s, expected error %d" % (what, show(o), codes[fcn]))
    elif isN and n < 0:
        if o != ("err", codes[fcn] + 1):
            raise Violation("%s: got %s, expected error %d" % (what, show(o), codes[fcn] + 1))
    else:
        if o[0] != "ok":
            raise Violation("%s: got %s" % (what, show(o)))
        sign = -1 if "max" in fcn else 1
        items = list(v.items()) if ismap else list(enumerate(v))
        best = sorted(items, key=lambda kv: (sign * key(kv[1]), kv[0]))[:n if isN else 1]
        wantvals = [sign * key(b[1]) for b in best]
        res = o[1] if isN else [o[1]]
        if "arg" in fcn:
            ok = list(res) == [b[0] for b in best]
        else:
            ok = [sign * key(strip(x, A) if A == "opt" else x) if A != "opt" else sign * key({"int": strip(x, A)} if strip(x, A) is not None else None)
                  for x in res] == wantvals and all(any(same(strip(norm(x), A), plain(y, A)) for y in (v.values() if ismap else v)) for x in res)
        if not ok:
            raise Violation("%s: got %s, expected %s" % (what, show(o), show(best)))
    d.label(fcn)
    d.nontrivial(repr((fcn, v, n if isN else None, rel)))


sub("orderings", orderings, 500)
