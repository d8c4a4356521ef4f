"""C08: comparison operators, cmp, max/min, sorting and extrema against an independent model of the Avro order."""
import copy

import avt
from avt import U, UNION, ARRAY
from pbt import Violation, show
from runner import Sub
from engines import build, outcome

RULE = ("one case = a generated comparable type (primitives, enums, fixed, records with ascending, descending and ignored fields, recursive records, arrays, "
        "unions, nested) with a list of 3-7 values derived from one another by small edits, compared through every operator and taken from the input, "
        "from literals, from cells, from let-bound copies and from function results; non-trivial = the values are not all equal; distinct = distinct (type, values)")
ASSUMPTIONS = ["maps have no order and are not generated", "which of two equal values max/min returns is unspecified",
               "-0.0 and 0.0 are equal", "distinctness is examined on types without ignored fields",
               "between a bare value and a value of a different branch of a union only inequality is specified (the branch order is that of the inferred union)"]

OPS = [("cmp", None), ("==", lambda c: c == 0), ("!=", lambda c: c != 0), ("<", lambda c: c < 0), ("<=", lambda c: c <= 0), (">", lambda c: c > 0),
       (">=", lambda c: c >= 0)]
VO = avt.ValOpts(nan=True, alphabet=u"ab\u00e9\U0001F600\uffff", maxlen=3)


def ismap(t):
    return t[0] == "map"


def gen_cmp_type(d, env):
    for _ in range(6):
        t = avt.gen_type(d, env, depth=2, maps=False)
        if t[0] in avt.RANK and d.bool():
            continue
        if not avt.contains(t, ismap, env):
            return t
    return avt.STRING


def edit(d, v, t, env, depth=4):
    """a value near v"""
    k = t[0]
    if d.chance(1, 5) or depth <= 0:
        return avt.gen_value(d, t, env, VO, depth=2)
    if k == "array":
        v = list(v)
        c = d.below(4)
        if c == 0 and v:
            v.pop()
        elif c == 1:
            v.append(avt.gen_value(d, t[1], env, VO, depth=1))
        elif v:
            i = d.below(len(v))
            v[i] = edit(d, v[i], t[1], env, depth - 1)
        return v
    if k == "record" and env.records[t[1]]:
        f = d.choice(env.records[t[1]])
        v = dict(v)
        v[f[0]] = edit(d, v[f[0]], f[1], env, depth - 1)
        return v
    if k == "union" and v is not None and d.chance(3, 4):
        for x in t[1]:
            if avt.tag(x) == v.tag:
                return U(v.tag, edit(d, v.v, x, env, depth - 1))
    if k in ("int", "long") and d.bool():
        lo, hi = (avt.INT_MIN, avt.INT_MAX) if k == "int" else (avt.LONG_MIN, avt.LONG_MAX)
        return max(lo, min(hi, v + d.choice([1, -1])))
    if k in ("string", "bytes") and d.bool():
        return v + d.choice([u"a", u"\u00e9", u"\U0001F600"]) if k == "string" else v + d.choice([b"a", b"\xff", b"\x00"])
    return avt.gen_value(d, t, env, VO, depth=2)


def strip(tj, declared):
    return tj


def typed_case(d):
    env = avt.gen_env(d, 4, recursive=True, orders=True)
    t = gen_cmp_type(d, env)
    vals = [avt.gen_value(d, t, env, VO)]
    for _ in range(2 + d.below(5)):
        c = d.below(6)
        base = d.choice(vals)
        vals.append(copy.deepcopy(base) if c == 0 else avt.gen_value(d, t, env, VO) if c == 1 else edit(d, base, t, env))
    x, y = vals[0], vals[1]
    declared = set()
    intype = {"type": "record", "name": "CmpIn", "fields": [
        {"name": "x", "type": avt.tojson(t, env, declared)}, {"name": "y", "type": avt.tojson(t, env)},
        {"name": "a", "type": {"type": "array", "items": avt.tojson(t, env)}}]}
    T = avt.tojson(t, env)
    lit = lambda v: {"type": T, "value": avt.tojsonvalue(v, t, env)}
    nonan = not any(avt_has_nan(v) for v in (x, y))
    src = {"input": "input.%s", "let": "l%s", "fcn": {"u.id": ["input.%s"]}, "elem": {"attr": {"type": {"type": "array", "items": T}, "new": ["input.%s", "input.y"]},
                                                                                  "path": [0]},
           "ident": {"do": [{"let": {"q": "input.%s"}}, "q"]}}
    if nonan:
        src["literal"] = None
        src["cell"] = {"cell": "c%s"}

    def take(kind, which, v):
        if kind == "literal":
            return lit(v)
        import json
        return json.loads(json.dumps(src[kind]).replace("%s", which))
    kinds = sorted(src)
    ints = []
    want = []
    n = lambda b: {"if": b, "then": 1, "else": 0}
    pairs = []
    for _ in range(4):
        kx, ky = d.choice(kinds), d.choice(kinds)
        (wx, vx), (wy, vy) = d.choice([(("x", x), ("y", y)), (("y", y), ("x", x)), (("x", x), ("x", x))])
        pairs.append((kx, wx, ky, wy))
        c = avt.model_compare(vx, vy, t, env)
        for op, f in OPS:
            e = {op: [take(kx, wx, vx), take(ky, wy, vy)]}
            ints.append(e if f is None else n(e))
            want.append(c if f is None else int(f(c)))
    for nm, op in (("a.argmax", 1), ("a.argmin", -1)):
        ints.append({nm: "input.a"})
    ints.append({"a.len": [{"a.distinct": ["input.a"]}]})
    vexprs = [{"max": ["input.x", "input.y"]}, {"min": ["input.x", "input.y"]}, {"a.max": ["input.a"]}, {"a.min": ["input.a"]}]
    outtype = {"type": "record", "name": "CmpOut", "fields": [
        {"name": "c", "type": {"type": "array", "items": "int"}}, {"name": "v", "type": {"type": "array", "items": T}},
        {"name": "s", "type": {"type": "array", "items": T}}, {"name": "sl", "type": {"type": "array", "items": T}}]}
    doc = {"input": intype, "output": outtype,
           "fcns": {"id": {"params": [{"p": T}], "ret": T, "do": ["p"]}, "lt": {"params": [{"p": T}, {"q": T}], "ret": "boolean", "do": [{"<": ["p", "q"]}]}},
           "action": [{"let": {"lx": "input.x", "ly": "input.y"}},
                      {"type": "CmpOut", "new": {"c": {"type": {"type": "array", "items": "int"}, "new": ints},
                                                 "v": {"type": {"type": "array", "items": T}, "new": vexprs},
                                                 "s": {"a.sort": ["input.a"]}, "sl": {"a.sortLT": ["input.a", {"fcn": "u.lt"}]}}}]}
    if nonan:
        doc["cells"] = {"cx": {"type": T, "init": avt.tojsonvalue(x, t, env)}, "cy": {"type": T, "init": avt.tojsonvalue(y, t, env)}}
    d.note({"type": avt.tojson(t, env, set()), "values": vals, "pairs": pairs})
    d.sut()
    datum = {"x": avt.toinput(x, t, env), "y": avt.toinput(y, t, env), "a": [avt.toinput(v, t, env) for v in vals]}
    out = build(doc).action(datum)
    what = "type %s, values %s" % (show(avt.tojson(t, env, set()), 500), show(vals, 700))
    got = list(out["c"])
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            kx, wx, ky, wy = pairs[i // len(OPS)]
            raise Violation("%s(%s from %s, %s from %s) is %s, expected %s: %s" % (OPS[i % len(OPS)][0], wx, kx, wy, ky, g, w, what))
    cm = lambda a, b: avt.model_compare(a, b, t, env)
    arr = [vals[i] for i in range(len(vals))]
    am, an, nd = got[len(want):]
    first_max = min(i for i in range(len(arr)) if all(cm(arr[i], b) >= 0 for b in arr))
    first_min = min(i for i in range(len(arr)) if all(cm(arr[i], b) <= 0 for b in arr))
    if not (0 <= am < len(arr)) or cm(arr[am], arr[first_max]) != 0:
        raise Violation("a.argmax is %d, a maximum is at %d: %s" % (am, first_max, what))
    if not (0 <= an < len(arr)) or cm(arr[an], arr[first_min]) != 0:
        raise Violation("a.argmin is %d, a minimum is at %d: %s" % (an, first_min, what))
    extreme = [max2(cm, x, y), min2(cm, x, y), arr[first_max], arr[first_min]]
    for nm, o, w, pool in zip(("max(x,y)", "min(x,y)", "a.max", "a.min"), out["v"], extreme, ([x, y], [x, y], arr, arr)):
        if not any(cm(w, p) == 0 and avt.match(o, p, t, env) for p in pool):
            raise Violation("%s is %s, expected %s: %s" % (nm, show(o), show(w), what))
    for nm in ("s", "sl"):
        left = list(arr)
        prev = None
        for o in out[nm]:
            hit = None
            for i, v in enumerate(left):
                if avt.match(o, v, t, env):
                    hit = i
                    break
            if hit is None:
                raise Violation("sorted array is not a permutation: %s -> %s" % (what, show(out[nm])))
            v = left.pop(hit)
            if prev is not None and cm(prev[0], v) > 0:
                raise Violation("sorted array is out of order: %s -> %s" % (what, show(out[nm])))
            prev = (v,)
        if left:
            raise Violation("sorted array lost elements: %s -> %s" % (what, show(out[nm])))
    ignoring = avt.contains(t, lambda a: a[0] == "record" and any(f[2].get("order") == "ignore" for f in env.records[a[1]]), env)
    if not ignoring and not any(avt_has_nan(v) for v in arr):
        classes = []
        for v in arr:
            if not any(cm(v, w) == 0 for w in classes):
                classes.append(v)
        if nd != len(classes):
            raise Violation("a.distinct keeps %d items, expected %d: %s" % (nd, len(classes), what))
    if any(cm(x, v) != 0 for v in arr):
        d.nontrivial(repr((avt.tojson(t, env, set()), vals)))
    d.label(t[0])


def max2(cm, x, y):
    return x if cm(x, y) >= 0 else y


def min2(cm, x, y):
    return x if cm(x, y) <= 0 else y


def avt_has_nan(v):
    if isinstance(v, float):
        return v != v or v in (float("inf"), float("-inf"))
    if isinstance(v, U):
        return avt_has_nan(v.v)
    if isinstance(v, dict):
        return any(avt_has_nan(a) for a in v.values())
    if isinstance(v, (list, tuple)):
        return any(avt_has_nan(a) for a in v)
    return False


def mixed_numeric(d):
    """operands of different numeric types"""
    tx, ty = d.choice(["int", "long", "float", "double"]), d.choice(["int", "long", "float", "double"])

    def val(t):
        if t in ("int", "long"):
            return d.smallint(5) if d.chance(3, 4) else d.int(-2**31, 2**31 - 1)
        return d.choice([d.smallint(10) / 2.0, float(d.smallint(5)), float("inf"), float("-inf"), float("nan")])
    x, y = val(tx), val(ty)
    d.note({"types": [tx, ty], "values": [x, y]})
    c = avt.model_compare(float(x), float(y), avt.DOUBLE, None)
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": tx}, {"name": "y", "type": ty}]},
           "output": {"type": "array", "items": "int"},
           "action": [{"type": {"type": "array", "items": "int"},
                       "new": [{op: ["input.x", "input.y"]} if f is None else {"if": {op: ["input.x", "input.y"]}, "then": 1, "else": 0} for op, f in OPS]
                       + [{"cmp": [{"max": ["input.x", "input.y"]}, "input.x"]}, {"cmp": [{"min": ["input.x", "input.y"]}, "input.y"]}]}]}
    d.sut()
    out = build(doc).action({"x": x, "y": y})
    want = [c if f is None else int(f(c)) for _, f in OPS] + [max(0, -c), min(0, c)]
    if list(out) != want:
        raise Violation("comparing %s %r with %s %r: %s give %s, expected %s" % (tx, x, ty, y, [o for o, _ in OPS] + ["max", "min"], out, want))
    d.nontrivial(repr((tx, ty, x, y)))
    d.label("%d" % c)


def member_vs_union(d):
    """a bare member compared with a union value"""
    env = avt.gen_env(d, 3, recursive=False, orders=True)
    for _ in range(5):
        t = avt.gen_union(d, env, 1, maps=False)
        # (known finding) values of string-like types are not distinguishable when untagged
        if not avt.contains(t, ismap, env) and sum(x[0] in ("string", "bytes", "enum", "fixed") for x in t[1]) < 2:
            break
    else:
        t = UNION(avt.NULL, avt.STRING)
    m = d.choice(t[1])
    v = avt.gen_value(d, m, env, VO)
    mv = None if m[0] == "null" else U(avt.tag(m), v)
    u = avt.gen_value(d, t, env, VO) if d.bool() else edit(d, mv, t, env)
    declared = set()
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "u", "type": avt.tojson(t, env, declared)}, {"name": "m", "type": avt.tojson(m, env, declared)}]},
           "output": {"type": "array", "items": "int"},
           "action": [{"type": {"type": "array", "items": "int"},
                       "new": [{op: args} if f is None else {"if": {op: args}, "then": 1, "else": 0} for args in (["input.u", "input.m"], ["input.m", "input.u"])
                               for op, f in OPS]}]}
    d.note({"union": doc["input"], "u": u, "m": v})
    d.sut()
    out = build(doc).action({"u": avt.toinput(u, t, env), "m": avt.toinput(v, m, env)})
    c = avt.model_compare(u, mv, t, env)
    samebranch = (u is None) == (mv is None) and (u is None or u.tag == mv.tag)
    for got, w in ((list(out)[:len(OPS)], c), (list(out)[len(OPS):], -c)):
        # values of different branches: the order of the branches is that of the inferred union, which begins with the first argument's type
        base = w if samebranch else got[0]
        if got != [base if f is None else int(f(base)) for _, f in OPS] or (not samebranch and got[0] not in (-1, 1)):
            raise Violation("comparing union value %r with bare member %r (type %s): %s, expected %s"
                            % (u, v, show(doc["input"]), out, "cmp %d" % w if samebranch else "unequal"))
    d.nontrivial(repr((doc["input"], u, v)))
    d.label("%d" % c)


SUBS = [Sub("typed", typed_case, 500, 8000), Sub("mixed-numeric", mixed_numeric, 300, 3000), Sub("member-vs-union", member_vs_union, 300, 4000)]


def probe_ambiguous():
    """a bare string compared with a union value when the union has another string-like branch"""
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "u", "type": ["null", "bytes", "string"]}, {"name": "m", "type": "string"}]},
           "output": "boolean", "action": [{"==": ["input.u", "input.m"]}]}
    return build(doc).action({"u": {"string": "x"}, "m": "x"}) is not True


PROBES = {"bare-member-ambiguous": probe_ambiguous}


def probe_identity():
    """a bytes value of the input is not found by value among equal literals"""
    doc = {"input": {"type": "array", "items": "bytes"}, "output": "boolean", "action": [{"a.contains": ["input", {"type": "bytes", "value": "x"}]}]}
    return build(doc).action([b"x"]) is not True


PROBES["identity-by-representation"] = probe_identity
