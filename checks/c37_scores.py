"""C37: naive Bayes, neural network and support vector scores against their formulas."""
import copy
import math

from pbt import Violation, close, show
from runner import Sub
from engines import Err, UserErr, libcall, refoutcome, compare_outcomes

RULE = ("generated models of generated shapes (arrays, maps, records with extra fields in any order, function arguments inline, referenced and filled) with generated data, some of them misaligned or invalid; "
        "non-trivial = a model with at least two parts, or an error; distinct = distinct (function, arguments)")
ASSUMPTIONS = ["scores are compared to 1e-9 relative to the largest term", "where two documented errors apply either may be raised",
               "likelihoods of multinomial models get the documented tiny constant, which is far below the tolerance"]
FACTOR = {"quick": 3, "thorough": 10}
D, I = "double", "int"
INF, NAN = float("inf"), float("nan")


def arr(t):
    return {"type": "array", "items": t}


def mp(t):
    return {"type": "map", "values": t}


def rec(d, name, fields, extra=True):
    fs = list(fields)
    if extra and d.chance(1, 3):
        fs.append(("mine", "string"))
    return {"type": "record", "name": name, "fields": [{"name": n, "type": t} for n, t in d.shuffle(fs)]}


def mk(r, **kw):
    return {f["name"]: kw.get(f["name"], "mine") for f in r["fields"]}


def num(d, special=True):
    c = d.below(16)
    if c == 0 and special:
        return d.choice([INF, -INF, NAN, 1e200, -1e300])
    if c == 1:
        return d.choice([0.0, 1.0, -1.0])
    return d.finite(10)


def run(d, fcn, params, ret, args, ref, size, fcns=None, tol=1e-9):
    """ref(): returns a value, or raises Err or Err with a tuple of acceptable codes"""
    d.note({"fcn": fcn, "params": params, "args": args, "fcns": fcns})
    want = refoutcome(ref)
    d.sut()
    keep = copy.deepcopy(args)
    got = libcall(fcn, params, ret, fcns=fcns)(*args)
    if not close(keep, args, 0, 0):
        raise Violation("%s%s changed its arguments" % (fcn, show(keep)))
    if want[0] == "err" and isinstance(want[1], tuple):
        if got[0] == "err" and got[1] in want[1]:
            want = got
        else:
            want = ("err", want[1][0])
    if got[0] == "user" or want[0] == "user":
        if tuple(got) != tuple(want):
            raise Violation("%s%s: got %s, expected %s" % (fcn, show(args), show(got), show(want)))
    else:
        compare_outcomes(fcn, args, got, want, abs_=tol)
    if size >= 2 or want[0] != "ok":
        d.nontrivial(repr((fcn, params, args)))
    d.label("ok" if want[0] == "ok" else "%s %s" % want[:2])


def total(terms):
    """sum with IEEE specials -> (sum, tolerance)"""
    s = 0.0
    for t in terms:
        s += t
    return s


def scale(terms):
    return 1e-9 * (1 + max([abs(t) for t in terms if abs(t) < INF] or [0]))


def log(x):
    return NAN if x != x or x < 0 else -INF if x == 0 else INF if x == INF else math.log(x)


def fdiv(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b)
    return a / b


KEYS = ["a", "b", "", "c d", "e"]


def align(d, kind, n, data, model, newd, newm):
    """data, model: aligned lists -> arrays or maps, sometimes misaligned -> (data, model, misaligned)"""
    keys = d.sample(KEYS, n)
    if kind == "map":
        data, model = dict(zip(keys, data)), dict(zip(d.shuffle(keys), model))
    if not d.chance(1, 5):
        return data, model, False
    if kind == "array":
        v, new = (data, newd) if d.bool() else (model, newm)
        if v and d.bool():
            v.pop()
        else:
            v.append(new())
    else:
        v, new = (data, newd) if d.bool() else (model, newm)
        if v and d.chance(2, 3):
            del v[d.choice(sorted(v))]
            if d.bool():
                v["new"] = new()
        else:
            v["new"] = new()
    return data, model, True


def gaussian(d):
    kind = d.choice(["array", "map"])
    n = d.int(0, 4)
    r = rec(d, "G", [("mean", D), ("variance", D)])
    var = lambda: d.weighted([(10, abs(d.finite(10)) + 1e-3), (1, 0.0), (1, -1.0), (1, d.choice([INF, 1e-300, 1e300]))])
    newm = lambda: mk(r, mean=num(d), variance=var())
    t = d.weighted([(5, D), (1, I)])
    newd = lambda: num(d) if t == D else d.smallint(20)
    data, model, mis = align(d, kind, n, [newd() for _ in range(n)], [newm() for _ in range(n)], newd, newm)
    ms = model if kind == "array" else list(model.values())
    bad = any(m["variance"] <= 0 for m in ms)
    pairs = [] if mis else list(zip(data, model)) if kind == "array" else [(data[k], model[k]) for k in data]
    terms = []
    if not bad:
        for x, m in pairs:
            v = m["variance"]
            terms.append(-0.5 * log(2 * math.pi * v))
            q = float(x) - m["mean"]
            terms.append(-0.5 * fdiv(q * q, v))

    def ref():
        if mis or bad:
            raise Err(((10000,) if mis else ()) + ((10001,) if bad else ()))
        return total(terms)
    c = arr if kind == "array" else mp
    run(d, "model.naive.gaussian", [c(t), c(r)], D, [data, model], ref, n, tol=scale(terms))


def multinomial(d):
    kind = d.choice(["array", "map"])
    n = d.weighted([(1, 0), (8, d.int(1, 4))])
    norm = d.bool()
    newm = lambda: d.weighted([(12, abs(d.finite(5)) + 0.01), (1, 0.0), (1, -0.5), (1, d.choice([INF, 1e300]))])
    t = d.weighted([(3, D), (2, I)])
    newd = lambda: abs(num(d)) if t == D else d.int(0, 10)
    probs = [newm() for _ in range(n)]
    if norm and probs and all(0 < p < INF for p in probs):
        s = math.fsum(probs)
        probs = [p / s for p in probs]
    data, model, mis = align(d, kind, n, [newd() for _ in range(n)], probs, newd, newm)
    ms = model if kind == "array" else list(model.values())
    bad = len(ms) == 0 or not all(m > 0 for m in ms)
    terms = []
    if not bad and not mis:
        tot = sum(ms)
        for x, p in (zip(data, model) if kind == "array" else [(data[k], model[k]) for k in data]):
            terms.append(x * log(fdiv(p, tot) + 2.2250738585072014e-308))

    def ref():
        if mis or bad:
            raise Err(((10011,) if bad else ()) + ((10010,) if mis else ()))
        return total(terms)
    c = arr if kind == "array" else mp
    mt = c(D)
    if d.bool():
        mt = rec(d, "M", [("values", mt)])
        model = mk(mt, values=model)
    run(d, "model.naive.multinomial", [c(t), mt], D, [data, model], ref, n, tol=scale(terms))


def bernoulli(d):
    n = d.int(0, 4)
    keys = d.sample(KEYS, n)
    model = {k: d.weighted([(12, d.unit() * 0.98 + 0.01), (1, d.choice([0.0, 1.0, -0.5, 1.5])), (1, d.choice([1e-300, 1e-12]))]) for k in keys}
    data = [d.choice(KEYS + ["other"]) for _ in range(d.int(0, 5))]
    if d.chance(3, 4):
        data = d.sample(KEYS, d.int(0, 4))
    bad = any(not 0 < v < 1 for v in model.values())
    terms = [] if bad else [math.log1p(-v) for v in model.values()] + [y for k in data if k in model for y in (math.log(model[k]), -math.log1p(-model[k]))]

    def ref():
        if bad:
            raise Err(10020)
        return total(terms)
    mt = mp(D)
    m = model
    if d.bool():
        mt = rec(d, "B", [("values", mt)])
        m = mk(mt, values=model)
    run(d, "model.naive.bernoulli", [arr("string"), mt], D, [data, m], ref, n, tol=scale(terms))


def fcnform(d, params, ret, body, name="f"):
    f = {"params": [{n: t} for n, t in params], "ret": ret, "do": body if isinstance(body, list) else [body]}
    form = d.below(3)
    if form == 0:
        return ("expr", f), None
    if form == 1:
        return ("expr", {"fcn": "u." + name}), {name: f}
    f["params"].insert(d.below(len(params) + 1), {"extra": "double"})
    return ("expr", {"fcn": "u." + name, "fill": {"extra": 2}}), {name: f}


def activation(d):
    c = d.finite(2)
    out = d.choice([
        ({"m.link.logit": ["x"]}, lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0),
        ({"m.link.tanh": ["x"]}, math.tanh),
        ({"+": [{"*": ["x", 0.5]}, c]}, lambda x: x * 0.5 + c),
        ({"max": ["x", 0]}, lambda x: max(x, 0.0)),
        ({"if": {">": ["x", 8]}, "then": {"error": "hot", "code": -9}, "else": "x"}, lambda x: hot(x))])
    if d.chance(1, 8):
        return ("expr", {"fcn": "m.sin"}), None, math.sin
    a, fcns = fcnform(d, [("x", D)], D, out[0])
    return a, fcns, out[1]


def hot(x):
    if x > 8:
        raise UserErr("hot", -9)
    return x


class Near(Exception):
    pass


def layers(d):
    n = d.weighted([(1, 0), (8, d.int(1, 4))])
    sizes = [d.int(0, 4) if d.chance(1, 4) else d.int(1, 4) for _ in range(n + 1)]
    r = rec(d, "L", [("weights", arr(arr(D))), ("bias", arr(D))])
    x = [num(d, False) for _ in range(sizes[0])]
    model = [mk(r, weights=[[d.finite(3) for _ in range(sizes[i])] for _ in range(sizes[i + 1])], bias=[d.finite(3) for _ in range(sizes[i + 1])]) for i in range(n)]
    if n and d.chance(1, 4):
        i = d.below(n)
        how = d.below(4)
        if how == 0:
            x.append(1.0)
        elif how == 1:
            model[i]["bias"].append(1.0)
        elif how == 2 and model[i]["weights"]:
            row = d.choice(model[i]["weights"])
            row.append(0.5)
        else:
            model[i]["weights"].append([0.5 for _ in range(sizes[i])])
    a, fcns, act = activation(d)
    big = [1.0]

    def ref():
        if n == 0:
            raise Err(11000)
        v = x
        for i, m in enumerate(model):
            if len(m["bias"]) != len(m["weights"]) or any(len(w) != len(v) for w in m["weights"]):
                raise Err(11001)
            out = []
            for w, b in zip(m["weights"], m["bias"]):
                ts = [p * q for p, q in zip(w, v)] + [b]
                big[0] = max([big[0]] + [abs(t) for t in ts])
                out.append(math.fsum(ts))
            if any(abs(o - 8) < 1e-9 for o in out):
                raise Near()
            v = [act(o) for o in out] if i + 1 < n else out
        return v
    try:
        refoutcome(ref)
    except Near:
        return
    run(d, "model.neural.simpleLayers", [arr(D), arr(r), a], arr(D), [x, model], ref, n, fcns, tol=1e-9 * big[0])


def kernel(d):
    g = d.finite(1)
    return d.choice([
        ({"m.kernel.linear": ["u", "v"]}, lambda u, v: math.fsum(a * b for a, b in zip(u, v))),
        ({"m.kernel.rbf": ["u", "v", 0.25]}, lambda u, v: math.exp(-0.25 * math.fsum((a - b) ** 2 for a, b in zip(u, v)))),
        ({"m.kernel.poly": ["u", "v", 0.5, 1, 2]}, lambda u, v: (0.5 * math.fsum(a * b for a, b in zip(u, v)) + 1) ** 2),
        ({"+": [{"a.sum": ["u"]}, g]}, lambda u, v: math.fsum(u) + g),
        ({"if": {">": [{"a.len": ["u"]}, 3]}, "then": {"error": "hot", "code": -9}, "else": {"m.exp": [{"*": [0.1, {"a.sum": ["u"]}]}]}}, lambda u, v: wide(u) or math.exp(0.1 * math.fsum(u)))])


def wide(u):
    if len(u) > 3:
        raise UserErr("hot", -9)


def svm(d):
    dim = d.int(1, 4)
    pr = rec(d, "P", [("supVec", arr(D)), ("coeff", D)])
    nr = rec(d, "N", [("supVec", arr(D)), ("coeff", D)])
    same = d.bool()
    lr = rec(d, "S", [("const", D), ("posClass", arr(pr)), ("negClass", arr("P" if same else nr))])
    if same:
        # the first use of the type declares it
        first = [f for f in lr["fields"] if f["name"] in ("posClass", "negClass")]
        first[0]["type"], first[1]["type"] = arr(pr), arr("P")
        nr = pr
    x = [d.finite(3) for _ in range(dim)]
    sv = lambda r: mk(r, supVec=[d.finite(3) for _ in range(dim)], coeff=d.finite(2))
    pos = [sv(pr) for _ in range(d.int(0, 3))]
    neg = [sv(nr) for _ in range(d.int(0, 3))]
    c = d.finite(3)
    bad = bool(pos + neg) and d.chance(1, 5)
    if bad:
        v = d.choice(pos + neg)["supVec"]
        if d.bool():
            v.pop()
        else:
            v.append(1.0)
    body, k = kernel(d)
    a, fcns = fcnform(d, [("u", arr(D)), ("v", arr(D))], D, body)
    model = mk(lr, const=c, posClass=pos, negClass=neg)
    big = [1.0]

    def ref():
        if not pos and not neg:
            raise Err(12000)
        for s in neg + pos:
            if len(s["supVec"]) != dim:
                raise Err(12001)
            k(s["supVec"], x)
        terms = [k(s["supVec"], x) * s["coeff"] for s in neg + pos] + [c]
        big[0] = max(map(abs, terms + [1.0])) * 100
        return math.fsum(terms)
    refoutcome(ref)
    run(d, "model.svm.score", [arr(D), lr, a], D, [x, model], ref, len(pos) + len(neg), fcns, tol=1e-9 * big[0])


SUBS = [Sub("gaussian", gaussian, 300, 6000), Sub("multinomial", multinomial, 300, 6000), Sub("bernoulli", bernoulli, 300, 6000), Sub("simpleLayers", layers, 400, 8000), Sub("svm", svm, 400, 8000)]
