"""C19: function references, partial application, dynamic calls and recursion against direct calls and Python models."""
import copy
import json
import re

from pbt import Violation, same, close, show, Discard
from runner import Sub
from engines import build, outcome, refoutcome, UserErr, norm

RULE = ("one case = one generated function (library function, or user function of 1-4 parameters) used directly and through references, fills, inline wrappers or run-time "
        "names on generated arguments, or one generated recursive program; non-trivial = at least one call is made; distinct = distinct (document, data)")
ASSUMPTIONS = ["values given to fill are free of side effects", "random library functions are not compared"]

# ------------------------------------------------------------------ library functions by reference

_table = None


def table():
    """(name, [(param, type)], ret type) of every library function that has one signature without wildcards"""
    global _table
    if _table is None:
        from titus.signature import Sig, PFAVersion
        import titus.version
        import titus.P as P
        f = build({"input": "int", "output": "int", "action": ["input"]}).f
        out = []
        v = PFAVersion.fromString(titus.version.__version__)
        for n, fc in sorted(f.items()):
            if n.startswith("rand.") or n.startswith("u.") or not re.match(r"^[A-Za-z_]([A-Za-z0-9_]|\.[A-Za-z][A-Za-z0-9_]*)*$", n):
                continue        # random, generated, or an operator symbol (which {"fcn": ...} does not accept)
            if re.match(r"prob\.dist\..*QF$", n) or n in ("prob.dist.negativeBinomialCDF", "prob.dist.hypergeometricCDF", "prob.dist.poissonCDF", "prob.dist.binomialCDF",
                                                          "prob.dist.chi2CDF", "prob.dist.gammaCDF", "prob.dist.betaCDF", "prob.dist.fCDF", "prob.dist.tCDF"):
                continue        # slow; their values are C31's subject
            sigs = [fc.sig] if isinstance(fc.sig, Sig) else list(getattr(fc.sig, "cases", []))
            sigs = [s for s in sigs if s.lifespan.current(v) or s.lifespan.deprecated(v)]
            if len(sigs) != 1:
                continue
            try:
                ps = [(list(p)[0], json.loads(repr(P.toType(list(p.values())[0])))) for p in sigs[0].params]
                r = json.loads(repr(P.toType(sigs[0].ret)))
            except Exception:
                continue
            if any(isinstance(t, dict) and "function" in str(t) for _, t in ps):
                continue
            out.append((n, ps, r))
        _table = out
    return _table


def argval(d, t, fcn):
    if t == "double":
        return d.choice([0.5, 0.25, 1.0, 2.0, 3.5, -1.5, 0.0, 1e9, 1387208720.5 if fcn.startswith("time.") else 10.0]) if d.chance(5, 6) else d.pfadouble()
    if t == "float":
        return d.smallint(8) / 2.0
    if t == "int":
        return d.smallint(10)
    if t == "long":
        return d.smallint(300)
    if t == "boolean":
        return d.bool()
    if t == "string":
        if fcn.startswith("time."):
            return d.choice(["", "UTC", "Europe/Paris", "no/zone"])
        if fcn.startswith("parse."):
            return d.choice(["12", "-7", "ff", "1.5", "x", ""])
        return d.choice(["", "abc", "ab ab", u"\u00e9x", "YWJj"])
    if t == "bytes":
        return d.choice([b"", b"abc", b"\xc3\xa9", b"\xff\x00"])
    if t == ["boolean", "null"]:
        return d.choice([None, {"boolean": True}, {"boolean": False}])
    if isinstance(t, dict) and t["type"] == "array":
        return d.list(lambda: argval(d, t["items"], fcn), 0, 4)
    if isinstance(t, dict) and t["type"] == "map":
        return {k: argval(d, t["values"], fcn) for k in d.sample(["a", "b", "c"], d.below(4))}
    raise Discard()


def attempt(doc, datum):
    engine = build(doc)
    try:
        return outcome(engine.action, copy.deepcopy(datum))
    except Exception as e:          # the function itself crashes: its own property's subject, here only the three uses must agree
        return ("crash", type(e).__name__)


def libref(d):
    fcn, ps, ret = d.choice(table())
    if not ps:
        raise Discard()
    n = len(ps)
    vals = [argval(d, t, fcn) for _, t in ps]
    names = ["v%d" % i for i in range(n)]
    fields = [{"name": nm, "type": t} for nm, (_, t) in zip(names, ps)]
    refs = ["input." + nm for nm in names]
    A = lambda t: {"type": "array", "items": t}
    one = lambda i: {"type": A(ps[i][1]), "new": [refs[i]]}
    nopen = min(n, d.int(1, 4))
    opened = sorted(d.sample(range(n), nopen))
    filled = [i for i in range(n) if i not in opened]
    # the values to fill come from variables whose names may equal the function's own parameter names
    lets = []
    fillexpr = {}
    clash = d.bool()
    for i in filled:
        vn = ps[i - 1][0] if clash else "w%d" % i
        if vn in [l[0] for l in lets] or vn == "input":
            vn = "w%d" % i
        lets.append((vn, refs[i]))
        fillexpr[ps[i][0]] = vn
    ref = {"fcn": fcn}
    if filled:
        ref["fill"] = fillexpr
    if nopen == 1:
        use = {"a.map": [one(opened[0]), ref]}
    else:
        use = {"a.zipmap": [one(i) for i in opened] + [ref]}
    inl = {"params": [{"q%d" % i: ps[i][1]} for i in opened], "ret": ret, "do": [{fcn: ["q%d" % i if i in opened else refs[i] for i in range(n)]}]}
    use2 = {list(use)[0]: list(use.values())[0][:-1] + [inl]}
    mk = lambda e: {"input": {"type": "record", "name": "In", "fields": fields}, "output": A(ret), "action": [{"let": {k: v}} for k, v in lets] + [e]}
    d.note({"fcn": fcn, "args": vals, "use": use, "lets": lets})
    d.sut()
    datum = dict(zip(names, vals))
    direct = attempt(mk({"type": A(ret), "new": [{fcn: refs}]}), datum)
    res = [attempt(mk(e), datum) for e in (use, use2)]
    for e, r in zip((use, use2), res):
        if r[0] != direct[0] or (r[0] == "ok" and not close(norm(r[1]), norm(direct[1]), 1e-9 if "float" in json.dumps(ret) else 0, 0)) or (r[0] != "ok" and r != direct):
            raise Violation("%s on %s: called directly %s, as %s %s" % (fcn, show(vals), show(direct), json.dumps(e)[:600], show(r)))
    d.nontrivial(repr((fcn, vals, opened, clash)))
    d.label(direct[0])
    d.label("fill" if filled else "ref")


# ------------------------------------------------------------------ user functions

def bodyexpr(d, params, depth=2):
    """integer expression over int parameters -> (json, python function of a dict)"""
    k = d.below(5) if depth > 0 else d.below(2)
    if k == 0 and params:
        p = d.choice(params)
        return p, lambda s: s[p]
    if k <= 1:
        c = d.smallint(5)
        return c, lambda s: c
    a, fa = bodyexpr(d, params, depth - 1)
    b, fb = bodyexpr(d, params, depth - 1)
    if k == 2:
        return {"+": [a, b]}, lambda s: fa(s) + fb(s)
    if k == 3:
        return {"-": [a, b]}, lambda s: fa(s) - fb(s)
    return {"+": [{"*": [3, a]}, b]}, lambda s: 3 * fa(s) + fb(s)


def mkfcn(d, name, lo=1, hi=4, pnames=("x", "y", "z", "t", "u")):
    n = d.int(lo, hi)
    ps = d.sample(list(pnames), n)
    # positional weights make argument mix-ups visible
    ws = [d.choice([1, 2, 3, 5, 7, 11]) for _ in ps]
    b, fb = bodyexpr(d, ps)
    form = d.below(4)
    j = b
    for p, w in zip(ps, ws):
        j = {"+": [j, {"*": [w, p]}]}
    f = lambda s: fb(s) + sum(w * s[p] for p, w in zip(ps, ws))
    if form == 0:
        do = [j]
    elif form == 1:
        do = [{"let": {"loc": j}}, {"set": {"loc": {"+": ["loc", 1]}}}, "loc"]
        f0 = f
        f = lambda s: f0(s) + 1
    elif form == 2:
        # an inline function inside that sees the parameters
        do = [{"a.fold": [{"type": {"type": "array", "items": "int"}, "new": [j, 1]}, 0,
                          {"params": [{"acc": "int"}, {"it": "int"}], "ret": "int", "do": [{"+": [{"+": ["acc", "it"]}, ps[0]]}]}]}]
        f1 = f
        f = lambda s: f1(s) + 1 + 2 * s[ps[0]]
    else:
        do = [{"if": {">": [ps[-1], 0]}, "then": j, "else": {"-": [0, j]}}]
        f2 = f
        f = lambda s: f2(s) if s[ps[-1]] > 0 else -f2(s)
    return ps, {"params": [{p: "int"} for p in ps], "ret": "int", "do": do}, f


def userfill(d):
    """user function with any subset of parameters filled, in library routines of 1-4 open parameters"""
    ps, fdef, f = mkfcn(d, "f")
    n = len(ps)
    nopen = d.int(1, n)
    opened = [p for p in ps if p in d.sample(ps, nopen)] if False else sorted(d.sample(range(n), nopen))
    filled = [i for i in range(n) if i not in opened]
    scope = {"input": None}
    lets = []
    env = {}
    for i in range(d.below(4)):
        nm = d.choice(list(ps) + ["other", "loc"])
        if nm in env:
            continue
        env[nm] = d.smallint(9)
        lets.append({"let": {nm: env[nm]}})
    datum = {"p": d.smallint(9), "q": d.smallint(9)}
    fillvals = {}
    fillexpr = {}
    for i in d.shuffle(filled):
        k = d.below(5)
        if k == 0 and env:
            nm = d.choice(sorted(env))
            e, v = nm, env[nm]
        elif k == 1:
            nm = d.choice("pq")
            e, v = "input." + nm, datum[nm]
        elif k == 2:
            e, v = {"u.g": ["input.p"]}, 2 * datum["p"] - 1
        elif k == 3 and env:
            nm = d.choice(sorted(env))
            e, v = {"+": [nm, {"*": [2, "input.q"]}]}, env[nm] + 2 * datum["q"]
        else:
            v = d.smallint(20)
            e = v
        fillexpr[ps[i]] = e
        fillvals[ps[i]] = v
    ref = {"fcn": "u.f"}
    if fillexpr:
        ref["fill"] = fillexpr
    ln = d.below(4)
    data = [[d.smallint(9) for _ in range(ln)] for _ in opened]
    if nopen == 1:
        routine = d.choice(["a.map", "a.filterlike", "map.map"])
        if routine == "map.map":
            m = {"k%d" % i: v for i, v in enumerate(data[0])}
            use = {"map.map": [{"type": {"type": "map", "values": "int"}, "value": m}, ref]}
        else:
            use = {"a.map": [{"type": {"type": "array", "items": "int"}, "value": data[0]}, ref]}
            routine = "a.map"
    elif nopen == 2 and d.bool():
        routine = d.choice(["a.mapWithIndex", "a.fold", "a.foldRight", "a.reduce"])
        arr = {"type": {"type": "array", "items": "int"}, "value": data[0]}
        z = d.smallint(5)
        use = {routine: [arr] + ([z] if "fold" in routine else []) + [ref]}
    else:
        routine = "a.zipmap"
        use = {"a.zipmap": [{"type": {"type": "array", "items": "int"}, "value": x} for x in data] + [ref]}

    def call(*vs):
        s = dict(fillvals)
        s.update(zip([ps[i] for i in opened], vs))
        return f(s)
    out = {"a.map": {"type": "array", "items": "int"}, "map.map": {"type": "map", "values": "int"}, "a.mapWithIndex": {"type": "array", "items": "int"},
           "a.zipmap": {"type": "array", "items": "int"}}.get(routine, "int")
    if routine == "a.map":
        want = [call(v) for v in data[0]]
    elif routine == "map.map":
        want = {"k%d" % i: call(v) for i, v in enumerate(data[0])}
    elif routine == "a.zipmap":
        want = [call(*vs) for vs in zip(*data)]
    elif routine == "a.mapWithIndex":
        want = [call(i, v) for i, v in enumerate(data[0])]
    else:
        a = data[0]
        if routine == "a.reduce":
            if not a:
                raise Discard()
            acc = a[0]
            a = a[1:]
        else:
            acc = z
        for x in (reversed(a) if routine == "a.foldRight" else a):
            acc = call(x, acc) if routine == "a.foldRight" else call(acc, x)
        want = acc
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "p", "type": "int"}, {"name": "q", "type": "int"}]}, "output": out,
           "fcns": {"f": fdef, "g": {"params": [{"x": "int"}], "ret": "int", "do": [{"-": [{"*": [2, "x"]}, 1]}]}},
           "action": lets + [use]}
    d.note({"doc": doc, "datum": datum})
    want_ok = all(-2**31 <= v < 2**31 for v in (want if isinstance(want, list) else want.values() if isinstance(want, dict) else [want]))
    if not want_ok:
        raise Discard()
    d.sut()
    o = outcome(build(doc).action, datum)
    if o[0] == "err" and o[1] in (18000, 18010, 18020, 18030):
        raise Discard()
    if o[0] != "ok" or not same(o[1], want):
        raise Violation("%s on %s: got %s, expected %s" % (json.dumps(doc)[:1500], datum, show(o), show(want)))
    if ln:
        d.nontrivial(json.dumps(doc, sort_keys=True) + repr(datum))
    d.label(routine)
    d.label("filled %d" % len(filled))


def dynamic(d):
    """call by a run-time name equals the direct call"""
    k = d.int(1, 4)
    names = ["f%d" % i for i in range(k)]
    n = d.int(0, 3)
    fcns = {}
    models = {}
    for nm in names:
        ps, fdef, f = mkfcn(d, nm, n, n) if n else ([], {"params": [], "ret": "int", "do": [d.smallint(9)]}, None)
        if not n:
            c = fdef["do"][0]
            f = lambda s, c=c: c
        fcns[nm] = fdef
        models[nm] = (ps, f)
    order = d.shuffle(names)
    sub_ = order[:d.int(1, k)]
    which = d.choice(sub_)
    vals = [d.smallint(9) for _ in range(n)]
    exprs = []
    for i, v in enumerate(vals):
        exprs.append("input.a%d" % i if d.bool() else {"+": ["loc", "input.a%d" % i]})
    loc = d.smallint(5)
    wv = [v if isinstance(e, str) else v + loc for v, e in zip(vals, exprs)]
    nameexpr = d.choice(["input.which", {"if": True, "then": "input.which", "else": "input.which"}, {"do": ["input.which"]}])
    call = {"call": nameexpr, "args": exprs}
    where = d.below(4)
    if where == 0:
        act = [{"let": {"loc": loc}}, call]
    elif where == 1:
        act = [{"let": {"loc": loc}}, {"+": [call, 0]}]
    elif where == 2:
        act = [{"let": {"loc": loc}}, {"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "value": [1]},
                                                          {"params": [{"zz": "int"}], "ret": "int", "do": [call]}]}, "path": [0]}]
    else:
        act = [{"let": {"loc": loc}}, {"let": {"r": call}}, "r"]
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "which", "type": {"type": "enum", "name": "Which", "symbols": sub_}}] +
                     [{"name": "a%d" % i, "type": "int"} for i in range(n)]},
           "output": "int", "fcns": fcns, "action": act}
    datum = dict([("which", which)] + [("a%d" % i, v) for i, v in enumerate(vals)])
    ps, f = models[which]
    want = f(dict(zip(ps, wv)))
    if abs(want) > 2**31 - 1:
        raise Discard()
    d.note({"doc": doc, "datum": datum})
    d.sut()
    o = outcome(build(doc).action, datum)
    if o != ("ok", want):
        raise Violation("%s on %s: got %s, expected %s" % (json.dumps(doc)[:1500], datum, show(o), want))
    d.nontrivial(json.dumps(doc, sort_keys=True) + repr(datum))
    d.label("args %d" % n)


def recursion(d):
    """mutually recursive functions with locals used after the recursive calls, closures over locals, and error exits"""
    k = d.int(1, 3)
    names = ["r%d" % i for i in range(k)]
    spec = {}
    for nm in names:
        calls = [d.choice(names) for _ in range(d.int(1, 2))]
        spec[nm] = dict(calls=calls, dec=[d.int(1, 2) for _ in calls], c=d.smallint(5), w=d.choice([1, 2, -1]), base=d.smallint(4), style=d.below(5),
                        err=d.below(12) if d.chance(1, 6) else None, viamap=d.bool(), dyn=False)
    fcns = {}
    for nm, s in spec.items():
        rec = [{"u." + cl: [{"-": ["n", dc]}, {"+": ["x", "loc"]}]} for cl, dc in zip(s["calls"], s["dec"])]
        if s["style"] == 1:
            rec = [{"call": {"type": {"type": "enum", "name": "E_" + nm + str(i), "symbols": [cl]}, "value": cl}, "args": list(r.values())[0]}
                   for i, (cl, r) in enumerate(zip(s["calls"], rec))]
        elif s["style"] == 2:
            rec = [{"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "new": [{"-": ["n", dc]}]},
                                       {"fcn": "u." + cl, "fill": {"x": {"+": ["x", "loc"]}}}]}, "path": [0]} for cl, dc in zip(s["calls"], s["dec"])]
        elif s["style"] == 3:
            rec = [{"a.fold": [{"type": {"type": "array", "items": "int"}, "new": [{"-": ["n", dc]}]}, 0,
                               {"params": [{"acc": "int"}, {"it": "int"}], "ret": "int", "do": [{"+": ["acc", {"u." + cl: ["it", {"+": ["x", "loc"]}]}]}]}]}
                   for cl, dc in zip(s["calls"], s["dec"])]
        body = [{"let": {"loc": {"+": [{"*": [s["w"], "n"]}, s["c"]]}}}]
        if s["err"] is not None:
            body.append({"if": {"==": ["n", s["err"]]}, "then": {"error": "stop " + nm, "code": -4}})
        tot = "loc"
        inner = []
        for i, r in enumerate(rec):
            inner.append({"let": {"t%d" % i: r}})
            tot = {"+": [tot, "t%d" % i]}
        # locals are read again after the calls
        inner.append({"+": [tot, {"-": ["n", "x"]}]})
        body.append({"if": {"<=": ["n", 0]}, "then": {"+": ["loc", s["base"]]}, "else": inner})
        fcns[nm] = {"params": [{"n": "int"}, {"x": "int"}], "ret": "int", "do": body}

    def run(nm, n, x):
        s = spec[nm]
        loc = s["w"] * n + s["c"]
        if s["err"] is not None and n == s["err"]:
            raise UserErr("stop " + nm, -4)
        if n <= 0:
            return loc + s["base"]
        tot = loc
        for cl, dc in zip(s["calls"], s["dec"]):
            tot += run(cl, n - dc, x + loc)
        return tot + n - x
    n = d.int(0, 6)
    x = d.smallint(5)
    doc = {"input": "int", "output": "int", "fcns": fcns, "action": [{"let": {"n": 1000, "loc": 7}}, {"+": [{"u." + names[0]: ["input", x]}, {"-": [{"+": ["loc", "n"]}, 1007]}]}]}
    d.note({"doc": doc, "input": n})
    want = refoutcome(run, names[0], n, x)
    if want[0] == "ok" and abs(want[1]) > 2**30:
        raise Discard()
    d.sut()
    o = outcome(build(doc).action, n)
    if o != want:
        raise Violation("%s on %d: got %s, expected %s" % (json.dumps(doc)[:2500], n, show(o), want))
    if n > 0:
        d.nontrivial(json.dumps(doc, sort_keys=True) + repr(n))
    d.label(want[0])


def closures(d):
    """nested inline functions see the variables in scope where they are written, parameters shadow outer names"""
    outer = d.choice(["x", "v", "w"])
    p1 = d.choice(["x", "y", "v"])
    p2 = d.choice(["x", "y", "z"])
    a = [d.smallint(4) for _ in range(d.below(4))]
    b = [d.smallint(4) for _ in range(d.below(4))]
    ov, inp = d.smallint(9), d.smallint(9)
    arr = lambda v: {"type": {"type": "array", "items": "int"}, "value": v}
    AI = {"type": "array", "items": "int"}
    terms = [t for t in [outer, p1, p2, "input"]]
    inner = {"+": [{"+": [{"*": [1000, outer]}, {"*": [100, p1]}]}, {"+": [{"*": [10, p2]}, "input"]}]}
    mid = d.below(3)
    innerf = {"params": [{p2: "int"}], "ret": "int", "do": [inner]}
    innermap = {"a.map": [arr(b), innerf]}
    if mid == 0:
        dof = [innermap]
    elif mid == 1:
        dof = [{"let": {"tmp": {"+": [p1, 1]}}}, {"a.map": [innermap, {"params": [{"q": "int"}], "ret": "int", "do": [{"+": ["q", "tmp"]}]}]}]
    else:
        dof = [{"let": {"tmp": p1}}, {"foreach": "i", "in": arr([1, 2]), "do": [{"set": {"tmp": {"+": ["tmp", "i"]}}}]},
               {"a.map": [innermap, {"params": [{"q": "int"}], "ret": "int", "do": [{"+": ["q", "tmp"]}]}]}]
    doc = {"input": "int", "output": {"type": "array", "items": AI},
           "action": [{"let": {outer: ov}}, {"a.map": [arr(a), {"params": [{p1: "int"}], "ret": AI, "do": dof}]}]}
    want = []
    for x1 in a:
        row = []
        for x2 in b:
            s = {"input": inp}
            s[outer] = ov
            s[p1] = x1
            t = {0: 0, 1: x1 + 1, 2: x1 + 3}[mid]
            s2 = dict(s)
            s2[p2] = x2
            row.append(1000 * s2[outer] + 100 * s2[p1] + 10 * s2[p2] + s2["input"] + t)
        want.append(row)
    d.note({"doc": doc, "input": inp})
    d.sut()
    o = outcome(build(doc).action, inp)
    if o[0] != "ok" or not same(o[1], want):
        raise Violation("%s on %d: got %s, expected %s" % (json.dumps(doc)[:1500], inp, show(o), want))
    if a and b:
        d.nontrivial(json.dumps(doc, sort_keys=True) + repr(inp))


SUBS = [Sub("libref", libref, 600, 12000), Sub("userfill", userfill, 500, 10000), Sub("dynamic", dynamic, 300, 5000), Sub("recursion", recursion, 300, 5000),
        Sub("closures", closures, 200, 3000)]
