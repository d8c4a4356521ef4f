"""C05: type acceptance, common types, function-signature resolution and lifespans against an independent model of the rules."""
import copy
import itertools
import json

import titus.P as P
import titus.pfaast as ast
import titus.reader
from titus.datatype import AvroType, ExceptionType, FcnType, jsonToAvroType
from titus.errors import PFASemanticException
from titus.signature import IncompatibleTypes, LabelData, Lifespan, PFAVersion, Sig

import avt
from avt import ARRAY, BOOLEAN, BYTES, DOUBLE, Env, FLOAT, INT, LONG, MAP, NULL, NUMERIC, PRIMS, RANK, STRING, UNION, gen_env, gen_type, tag, tojson
from pbt import Discard, Violation, show
from runner import Sub
from engines import build, compile_outcome, outcome

RULE = ("generated types over generated named types (recursive records, enums, fixed, unions with several numeric members), related pairs made by editing one of them or its record, enum and fixed definitions (fields added, dropped, retyped, given defaults); "
        "acceptance, the common type of several types and the resolution of every library signature (arguments instantiated from its pattern and then edited) are compared with an independent implementation of the rules, on the API and on documents; "
        "a pair is used in a document in twelve positions, which must compile exactly if the type is accepted, and the value must come through; non-trivial = a compound type or a call; distinct = distinct (types, function)")
ASSUMPTIONS = ["the order of the members of a resulting union is free", "where several ways to match a union pattern give different results, any of them is right",
               "acceptance across definitions follows Avro schema resolution by field name: a field that only the reader has needs a default"]
FACTOR = {"quick": 3, "thorough": 10}


# --- acceptance across two environments (reader and writer may define a name differently)

def acc(a, ea, b, eb, seen=frozenset()):
    if b[0] == "exception":
        return False
    if b[0] == "union":
        if a[0] == "union":
            return all(any(acc(x, ea, y, eb, seen) for x in a[1]) for y in b[1])
        return all(acc(a, ea, y, eb, seen) for y in b[1])
    if a[0] == "union":
        return any(acc(x, ea, b, eb, seen) for x in a[1])
    if a[0] in RANK and b[0] in RANK:
        return RANK[a[0]] >= RANK[b[0]]
    if a[0] != b[0]:
        return False
    if a[0] in ("array", "map"):
        return acc(a[1], ea, b[1], eb, seen)
    if a[0] in ("record", "enum", "fixed"):
        if a[1] != b[1]:
            return False
        n = a[1]
        if a[0] == "fixed":
            return ea.fixeds[n] == eb.fixeds[n]
        if a[0] == "enum":
            return set(eb.enums[n]) <= set(ea.enums[n])
        if n in seen or ea is eb:
            return True
        seen = seen | {n}
        theirs = {f[0]: f[1] for f in eb.records[n]}
        for f in ea.records[n]:
            if f[0] in theirs:
                if not acc(f[1], ea, theirs[f[0]], eb, seen):
                    return False
            elif "default" not in (f[2] if len(f) > 2 else {}):
                return False
        return True
    return True


def default_of(t, env):
    k = t[0]
    if k == "union":
        return default_of(t[1][0], env)
    return {"null": None, "boolean": True, "int": 1, "long": 2, "float": 0.5, "double": 1.5, "string": "d", "bytes": "d", "array": [], "map": {}}.get(k, Ellipsis)


def edit_env(d, e):
    """a copy of the environment with some definitions changed"""
    w = Env()
    w.multinum = e.multinum
    w.order = list(e.order)
    w.records = {n: [tuple(list(f) + [{}])[:3] for f in fs] for n, fs in e.records.items()}
    w.records = {n: [(f[0], f[1], dict(f[2])) for f in fs] for n, fs in w.records.items()}
    w.enums = {n: list(s) for n, s in e.enums.items()}
    w.fixeds = dict(e.fixeds)
    for n in w.order:
        if d.bool():
            continue
        if n in w.enums:
            s = w.enums[n]
            k = d.below(4)
            if k == 0 and len(s) > 1:
                s.pop(d.below(len(s)))
            elif k == 1:
                s.insert(d.below(len(s) + 1), "NEW")
            elif k == 2:
                w.enums[n] = d.shuffle(s)
        elif n in w.fixeds:
            if d.bool():
                w.fixeds[n] += 1
        else:
            fs = w.records[n]
            k = d.below(6)
            if k == 0 and fs:
                fs.pop(d.below(len(fs)))
            elif k == 1:
                fs.insert(d.below(len(fs) + 1), ("extra", d.choice(PRIMS), {}))
            elif k in (2, 3) and fs:
                i = d.below(len(fs))
                fs[i] = (fs[i][0], edit(d, fs[i][1], w), {})
            elif k == 4:
                w.records[n] = d.shuffle(fs)
            elif fs:
                i = d.below(len(fs))
                fs[i] = (fs[i][0] + "x", fs[i][1], {})
    return w


def add_defaults(d, e):
    for n in e.records:
        out = []
        for f in e.records[n]:
            extra = dict(f[2]) if len(f) > 2 else {}
            v = default_of(f[1], e)
            if v is not Ellipsis and d.chance(1, 2):
                extra["default"] = v
            out.append((f[0], f[1], extra))
        e.records[n] = out


def edit(d, t, env, depth=2):
    """a type that is related to t"""
    k = t[0]
    c = d.below(8)
    if c == 0:
        return gen_type(d, env, depth=1)
    if c == 1 and k != "union":
        o = d.choice([NULL, STRING, INT, DOUBLE, ARRAY(INT)])
        return t if tag(o) == tag(t) else UNION(*d.shuffle([t, o]))
    if k in RANK:
        return d.choice(list(NUMERIC))
    if k == "array" and c > 2:
        return ARRAY(edit(d, t[1], env, depth - 1))
    if k == "map" and c > 2:
        return MAP(edit(d, t[1], env, depth - 1))
    if k == "union":
        ts = list(t[1])
        if c == 2 and len(ts) > 1:
            ts.pop(d.below(len(ts)))
            if len(ts) == 1:
                return ts[0]
        elif c == 3:
            ts = d.shuffle(ts)
        elif c in (4, 5):
            i = d.below(len(ts))
            n = edit(d, ts[i], env, depth - 1)
            if n[0] != "union" and tag(n) not in [tag(x) for j, x in enumerate(ts) if j != i]:
                ts[i] = n
        elif c == 6:
            return d.choice(ts)
        return ("union", tuple(ts))
    return t


def J(t, env):
    return tojson(t, env, set())


def A(t, env):
    return ExceptionType() if t[0] == "exception" else jsonToAvroType(json.dumps(J(t, env)))


def compound(t):
    return t[0] in ("array", "map", "union", "record", "enum", "fixed")


def genenv(d, maxn=4):
    e = gen_env(d, maxn)
    e.multinum = d.bool()
    return e


def accept(d):
    e = genenv(d)
    named = [n for n in e.order]
    for i, n in enumerate(named):
        if n in e.records and d.bool() and len(named) > 1:
            # records within records
            t = d.choice([t for t in e.types() if t[1] != n and named.index(t[1]) < i] or [INT])
            e.records[n].insert(0, ("inner", d.choice([t, ARRAY(t), UNION(t, NULL) if t != NULL else t]), {}))
    add_defaults(d, e)
    w = edit_env(d, e) if d.chance(2, 3) else e
    x = gen_type(d, e, depth=3)
    if e.order and d.chance(2, 3):
        x = d.choice(e.types())
    y = x if d.chance(1, 4) else edit(d, x, w)
    if d.bool():
        y = edit(d, y, w)
    if d.chance(1, 20):
        y = ("exception",)
    if d.bool() and y[0] != "exception":
        x, e, y, w = y, w, x, e
    d.note((J(x, e), "exception" if y[0] == "exception" else J(y, w)))
    d.sut()
    want = acc(x, e, y, w)
    a, b = A(x, e), A(y, w)
    got = a.accepts(b)
    d.label("accepted" if want else "refused")
    if compound(x) or compound(y):
        d.nontrivial(repr((J(x, e), y[0] if y[0] == "exception" else J(y, w))))
    if got is not want:
        raise Violation("%s accepts %s: %s, expected %s" % (a, b, got, want))
    for t in (a, b):
        if isinstance(t, ExceptionType):
            continue
        if not t.accepts(t):
            raise Violation("%s does not accept itself" % t)
        again = jsonToAvroType(t.toJson())
        if not (t == again and again.accepts(t) and t.accepts(again)):
            raise Violation("%s is not the type read from its JSON form: %s" % (t, again))
    if isinstance(b, ExceptionType):
        return
    if (a == b) and not (a.accepts(b) and b.accepts(a)):
        raise Violation("%s and %s are equal, but do not accept each other" % (a, b))
    if (a == b) and hash(a) != hash(b):
        raise Violation("%s and %s are equal, but have different hashes" % (a, b))


def transitive(d):
    """one set of definitions: acceptance is a preorder"""
    e = genenv(d)
    x = gen_type(d, e, depth=2)
    y = edit(d, x, e)
    z = edit(d, y, e)
    ts = [A(t, e) for t in (x, y, z)]
    d.note([J(t, e) for t in (x, y, z)])
    d.sut()
    for i, j, k in itertools.permutations(range(3)):
        a, b, c = ts[i], ts[j], ts[k]
        if a.accepts(b) and b.accepts(c):
            if x != y or y != z:
                d.nontrivial(repr([J(t, e) for t in (x, y, z)]))
            if not a.accepts(c):
                raise Violation("%s accepts %s, which accepts %s, but the first does not accept the last" % (a, b, c))


def fcntypes(d):
    e = genenv(d, 2)
    n = d.below(3)
    ps = [gen_type(d, e, depth=1) for _ in range(n)]
    r = gen_type(d, e, depth=1)
    qs = [p if d.bool() else edit(d, p, e) for p in ps]
    s = r if d.bool() else edit(d, r, e)
    if d.chance(1, 6):
        qs = qs[:-1] if qs and d.bool() else qs + [INT]
    f, g = FcnType([A(p, e) for p in ps], A(r, e)), FcnType([A(q, e) for q in qs], A(s, e))
    d.note((repr(f), repr(g)))
    d.sut()
    want = len(ps) == len(qs) and all(acc(q, e, p, e) for p, q in zip(ps, qs)) and acc(r, e, s, e)
    if n:
        d.nontrivial(repr((f, g)))
    d.label("accepted" if want else "refused")
    if bool(f.accepts(g)) != want:
        raise Violation("function type %s accepts %s: %s, expected %s" % (f, g, f.accepts(g), want))
    t = A(r, e)
    if f.accepts(t) or t.accepts(f):
        raise Violation("%s and %s: one accepts the other" % (f, t))


# --- common type

class Incompatible(Exception):
    pass


def common(ts, env):
    """the narrowest type that accepts all of them"""
    if all(t == ts[0] for t in ts):
        return ts[0]
    if any(t[0] == "fcn" for t in ts):
        raise Incompatible()
    if all(t[0] in RANK for t in ts):
        return max(ts, key=lambda t: RANK[t[0]])
    for k in ("array", "map"):
        if all(t[0] == k for t in ts):
            return (k, common([t[1] for t in ts], env))
    for k in ("record", "enum", "fixed"):
        if all(t[0] == k for t in ts):
            raise Incompatible()
    flat = []
    for t in ts:
        flat += t[1] if t[0] == "union" else [t]
    out = []
    for t in flat:
        if any(avt.accepts(y, t, env) for y in out):
            continue
        out = [y for y in out if not avt.accepts(t, y, env)] + [t]
    if sum(t[0] == "fixed" for t in out) > 1 or sum(t[0] == "enum" for t in out) > 1:
        raise Incompatible()
    # an Avro union has at most one array and one map
    for k in ("array", "map"):
        if sum(t[0] == k for t in out) > 1:
            raise Incompatible()
    return ("union", tuple(out))    # also of one member: the values are still tagged


def normal(t):
    """with union members sorted"""
    if t[0] == "union":
        return ("union", tuple(sorted((normal(x) for x in t[1]), key=repr)))
    if t[0] in ("array", "map"):
        return (t[0], normal(t[1]))
    return t


def term(j):
    """JSON schema -> type term (named types by name)"""
    if isinstance(j, str):
        return (j,) if j in ("null", "boolean", "int", "long", "float", "double", "string", "bytes") else ("name", j)
    if isinstance(j, list):
        return ("union", tuple(term(x) for x in j))
    k = j["type"]
    if k == "array":
        return ("array", term(j["items"]))
    if k == "map":
        return ("map", term(j["values"]))
    if k in ("record", "enum", "fixed"):
        return (k, j["name"] if not j.get("namespace") else j["namespace"] + "." + j["name"])
    return term(k)


def unname(t):
    if t[0] in ("record", "enum", "fixed", "name"):
        return ("name", t[1].lstrip("."))
    if t[0] in ("array", "map"):
        return (t[0], unname(t[1]))
    if t[0] == "union":
        return ("union", tuple(unname(x) for x in t[1]))
    return t


def eqtype(at, t):
    """is the library's type the one expected?"""
    return normal(unname(term(json.loads(at.toJson())))) == normal(unname(t))


def commontype(d):
    e = genenv(d)
    x = gen_type(d, e, depth=2)
    ts = [x]
    for _ in range(d.int(1, 3)):
        t = d.choice(ts)
        ts.append(d.choice([t, edit(d, t, e), edit(d, t, e), gen_type(d, e, depth=1)]))
    d.note([J(t, e) for t in ts])
    d.sut()
    try:
        want = common(ts, e)
    except Incompatible:
        want = None
    d.label("none" if want is None else "union" if want[0] == "union" else "simple")
    d.nontrivial(repr([J(t, e) for t in ts]))
    try:
        got = LabelData.broadestType([A(t, e) for t in ts])
    except IncompatibleTypes:
        got = None
    if (got is None) != (want is None) or got is not None and not eqtype(got, want):
        raise Violation("common type of %s: %s, expected %s" % (show([J(t, e) for t in ts]), got, want and J(want, e)))
    if got is not None:
        for t in ts:
            if not got.accepts(A(t, e)):
                raise Violation("common type %s of %s does not accept %s" % (got, show([J(t, e) for t in ts]), J(t, e)))
    # in a document: the branches of an if, the values of a cond
    rec = {"type": "record", "name": "In", "fields": []}
    declared = set(["In"])
    rec["fields"] = [{"name": "x%d" % i, "type": tojson(t, e, declared)} for i, t in enumerate(ts)]
    if len(ts) == 2 and d.bool():
        expr = {"if": True, "then": "input.x0", "else": "input.x1"}
    else:
        expr = {"cond": [{"if": True, "then": "input.x%d" % i} for i in range(len(ts) - 1)], "else": "input.x%d" % (len(ts) - 1)}
    infer("branches of %s" % show([J(t, e) for t in ts]), expr, {"input": jsonToAvroType(json.dumps(rec))}, want)


def infer(what, expr, symbols, want):
    try:
        got = ast.inferType(titus.reader.jsonToAst.expr(expr), symbols)
    except PFASemanticException:
        got = None
    if (got is None) != (want is None) or got is not None and not eqtype(got, want):
        raise Violation("%s: type %s, expected %s" % (what, got, want))


# --- signatures

def pattern(p):
    n = type(p).__name__
    if n in ("Null", "Boolean", "Int", "Long", "Float", "Double", "Bytes", "String"):
        return (n.lower(),)
    if n == "Array":
        return ("array", pattern(p.items))
    if n == "Map":
        return ("map", pattern(p.values))
    if n == "Union":
        return ("union", tuple(pattern(x) for x in p.types))
    if n == "Fcn":
        return ("fcn", tuple(pattern(x) for x in p.params), pattern(p.ret))
    if n == "Wildcard":
        return ("wild", p.label, None if p.oneOf is None else tuple(term(json.loads(t.toJson())) for t in p.oneOf))
    if n == "WildRecord":
        return ("wildrec", p.label, tuple(sorted((k, pattern(v)) for k, v in (p.minimalFields or {}).items())))
    if n == "WildEnum":
        return ("wildenum", p.label)
    if n == "WildFixed":
        return ("wildfixed", p.label)
    if n == "EnumFields":
        return ("enumfields", p.label, p.wildRecord)
    raise AssertionError(n)


class Labels(object):
    def __init__(self, members=(), oneof=(), expected=()):
        self.members, self.oneof, self.expected = members, oneof, expected

    def add(self, label, t, oneof=None):
        return Labels(self.members + ((label, t),), self.oneof + (((label, oneof),) if oneof is not None else ()), self.expected)

    def expect(self, label, symbols):
        return Labels(self.members, self.oneof, self.expected + ((label, tuple(symbols)),))

    def solve(self, env):
        out = {}
        for l, _ in self.members:
            if l not in out:
                out[l] = common([t for k, t in self.members if k == l], env)
        for l, oneof in self.oneof:
            if out[l] not in oneof:
                raise Incompatible()
        for l, symbols in self.expected:
            if l not in out or out[l][0] != "record" or tuple(f[0] for f in env.records[out[l][1]]) != symbols:
                raise Incompatible()
        return out


def fits(p, a, L, env, strict=False, rev=False):
    """all ways in which an argument fits a pattern"""
    k = p[0]
    if a[0] == "exception":
        return
    if k in RANK and a[0] in RANK:
        if (p == a) if strict else (RANK[a[0]] >= RANK[k]) if rev else (RANK[k] >= RANK[a[0]]):
            yield L
    elif k in ("array", "map"):
        if a[0] == k:
            for M in fits(p[1], a[1], L, env, strict, rev):
                yield M
    elif k == "union":
        if a[0] == "union":
            if len(a[1]) <= len(p[1]):
                for chosen in itertools.permutations(p[1], len(a[1])):
                    def go(i, M):
                        if i == len(a[1]):
                            yield M
                        else:
                            for N in fits(chosen[i], a[1][i], M, env, True, rev):
                                for O in go(i + 1, N):
                                    yield O
                    for M in go(0, L):
                        try:
                            M.solve(env)
                        except Incompatible:
                            continue
                        yield M
        else:
            for q in p[1]:
                for M in fits(q, a, L, env, strict, rev):
                    yield M
    elif k == "fcn":
        if a[0] == "fcn" and len(a[1]) == len(p[1]):
            def go(i, M):
                if i == len(p[1]):
                    for N in fits(p[2], a[2], M, env, strict, False):
                        yield N
                else:
                    for N in fits(p[1][i], a[1][i], M, env, strict, True):
                        for O in go(i + 1, N):
                            yield O
            for M in go(0, L):
                yield M
    elif k == "wild":
        if a[0] != "fcn" and (p[2] is None or a in p[2]):
            yield L.add(p[1], a, p[2])
    elif k == "wildrec":
        if a[0] == "record":
            have = {f[0]: f[1] for f in env.records[a[1]]}
            if all(n in have for n, _ in p[2]):
                def go(i, M):
                    if i == len(p[2]):
                        yield M
                    else:
                        for N in fits(p[2][i][1], have[p[2][i][0]], M, env, True, rev):
                            for O in go(i + 1, N):
                                yield O
                for M in go(0, L.add(p[1], a)):
                    yield M
    elif k in ("wildenum", "wildfixed"):
        if a[0] == k[4:]:
            yield L.add(p[1], a)
    elif k == "enumfields":
        if a[0] == "enum":
            yield L.add(p[1], a).expect(p[2], env.enums[a[1]])
    elif k in ("record", "enum", "fixed"):
        if p == a:
            yield L
    elif k == a[0]:
        yield L


def subst(p, s):
    k = p[0]
    if k in ("array", "map"):
        return (k, subst(p[1], s))
    if k == "union":
        return ("union", tuple(subst(x, s) for x in p[1]))
    if k.startswith("wild") or k == "enumfields":
        if p[1] not in s:
            raise Discard()
        return s[p[1]]
    return p


def resolve(params, ret, args, env):
    """possible results: set of return types (normalized)"""
    if len(params) != len(args):
        return set()
    out = set()

    def go(i, M):
        if i == len(params):
            yield M
        else:
            for N in fits(params[i], args[i], M, env):
                for O in go(i + 1, N):
                    yield O
    for M in itertools.islice(go(0, Labels()), 200):
        try:
            s = M.solve(env)
        except Incompatible:
            continue
        # a function must take what it will be given
        if all(acc(q, env, subst(p, s), env) for P_, a in zip(params, args) if a[0] == "fcn" and P_[0] == "fcn" for p, q in zip(P_[1], a[1])):
            out.add(normal(subst(ret, s)))
    return out


def instance(d, p, env, bind, rev=False):
    """a type that fits the pattern (most of the time)"""
    k = p[0]
    if k in RANK:
        return d.choice([p, p, p] + [t for t in NUMERIC if (RANK[t[0]] >= RANK[k] if rev else RANK[t[0]] <= RANK[k])])
    if k in ("array", "map"):
        return (k, instance(d, p[1], env, bind, rev))
    if k == "union":
        if d.chance(1, 6):
            return instance(d, d.choice(p[1]), env, bind, rev)
        ts = []
        for q in p[1]:
            t = instance(d, q, env, bind, rev) if q[0] not in RANK else q
            if t[0] == "union" or tag(t) in [tag(x) for x in ts]:
                continue
            ts.append(t)
        ts = d.shuffle(ts)
        return ts[0] if len(ts) == 1 else ("union", tuple(ts))
    if k == "fcn":
        return ("fcn", tuple(instance(d, q, env, bind, True) for q in p[1]), instance(d, p[2], env, bind))
    if k == "wild":
        if p[1] in bind and d.chance(5, 6):
            t = bind[p[1]]
            if d.chance(1, 6):
                t = edit(d, t, env)
        elif p[2] is not None:
            t = d.choice(p[2]) if d.chance(9, 10) else gen_type(d, env, depth=1)
        elif env.order and d.chance(1, 3):
            t = d.choice(env.types())
        else:
            t = gen_type(d, env, depth=1)
        bind.setdefault(p[1], t)
        return t
    if k == "wildrec":
        if p[1] in bind and d.chance(14, 15):
            return bind[p[1]]
        n = "R%d" % len(env.order)
        fields = []
        env.add_record(n, fields)
        bind[p[1]] = ("record", n)
        for f, q in p[2]:
            if d.chance(1, 30):
                continue
            t = q if q[0] in RANK and d.chance(9, 10) else instance(d, q, env, bind, rev)
            fields.append((f, t, {}))
        for i in range(d.below(3)):
            fields.append(("z%d" % i, gen_type(d, env, depth=0), {}))
        if d.bool():
            env.records[n] = d.shuffle(fields)
        return ("record", n)
    if k in ("wildenum", "enumfields"):
        if p[1] in bind and d.chance(9, 10):
            return bind[p[1]]
        sym = ["A", "B"]
        if k == "enumfields" and p[2] in bind and bind[p[2]][0] == "record" and d.chance(6, 7):
            sym = [f[0] for f in env.records[bind[p[2]][1]]] or sym
            if d.chance(1, 4):
                sym = d.shuffle(sym)
        t = env.add_enum("E%d" % len(env.order), sym)
        bind.setdefault(p[1], t)
        return t
    if k == "wildfixed":
        if p[1] in bind and d.chance(9, 10):
            return bind[p[1]]
        t = env.add_fixed("X%d" % len(env.order), d.int(1, 4))
        bind.setdefault(p[1], t)
        return t
    return p


_fcns = None


def functions():
    global _fcns
    if _fcns is None:
        table = ast.FunctionTable.blank().functions
        _fcns = [table[n] for n in sorted(table)]
    return _fcns


def cases_of(f):
    return f.sig.cases if hasattr(f.sig, "cases") else [f.sig]


def AF(t, env):
    if t[0] == "fcn":
        return FcnType([A(x, env) for x in t[1]], A(t[2], env))
    return A(t, env)


def JF(t, env):
    if t[0] == "fcn":
        return {"params": [J(x, env) for x in t[1]], "ret": J(t[2], env)}
    return "exception" if t[0] == "exception" else J(t, env)


WEIRD = {}


def signature(d):
    f = d.choice(functions())
    if d.chance(1, 3):
        f = d.choice([g for g in functions() if any(label_count(c) for c in cases_of(g))])
    elif d.chance(1, 6):
        # patterns whose labels interact: unions and enumerations of fields
        f = d.choice([g for g in functions() if any("EnumFields" in repr(c.params) or "P.Union([P.Wild" in repr(c.params) for c in cases_of(g))])
    version = PFAVersion(0, 8, 1) if d.chance(9, 10) else PFAVersion(0, d.choice([7, 9]), d.choice([1, 2, 0]))
    cases = cases_of(f)
    env = gen_env(d, 2, recursive=False)
    c = d.choice(cases)
    bind = {}
    args = [instance(d, pattern(list(p.values())[0]), env, bind) for p in c.params]
    how = d.below(5)
    if how == 1 and args:
        i = d.below(len(args))
        if args[i][0] == "fcn":
            ps, r = list(args[i][1]), args[i][2]
            j = d.below(len(ps) + 1)
            if j == len(ps):
                r = edit(d, r, env)
            else:
                ps[j] = edit(d, ps[j], env)
            args[i] = ("fcn", tuple(ps), r)
        else:
            args[i] = edit(d, args[i], env)
    elif how == 2 and d.chance(1, 3) and args:
        args = d.choice([args[:-1], args + [d.choice(args)], args[::-1]])
    elif how == 3 and d.chance(1, 3) and args:
        args[d.below(len(args))] = d.choice([("exception",), ("fcn", (), INT), ("fcn", (INT,), INT), gen_type(d, env, depth=1)])
    d.note((f.name, [JF(a, env) for a in args], str(version)))
    want = None
    for i, k in enumerate(cases):
        span = k.lifespan
        if span.death is not None and not version < span.death or span.birth is not None and version < span.birth:
            continue
        r = resolve([pattern(list(p.values())[0]) for p in k.params], pattern(k.ret), args, env)
        if r:
            want = (k, r)
            break
    d.sut()
    d.label(f.name.rsplit(".", 1)[0] if "." in f.name else "core", "accepted" if want else "refused")
    d.nontrivial(repr((f.name, [JF(a, env) for a in args])))
    try:
        types = [AF(a, env) for a in args]
    except Exception:
        raise Discard()
    res = f.sig.accepts(types, version)
    what = "%s(%s)" % (f.name, show([JF(a, env) for a in args]))
    if (res is None) != (want is None):
        raise Violation("%s is %s, expected %s" % (what, "refused" if res is None else "accepted as %r" % (res[2],), "a refusal" if want is None else [show(x) for x in want[1]]))
    if res is None:
        return
    sig, params, ret = res
    if sig is not want[0]:
        raise Violation("%s resolves to signature %r, expected %r" % (what, sig, want[0]))
    if not any(eqtype(ret, t) for t in want[1]):
        raise Violation("%s has type %s, expected %s" % (what, ret, show(sorted(want[1], key=repr))))
    for t, p in zip(types, params):
        if isinstance(t, AvroType) and not p.accepts(t):
            raise Violation("%s: resolved parameter type %s does not accept the argument %s" % (what, p, t))
    # the same in an expression
    if not any(a[0] == "exception" for a in args):
        symbols, exprs = {}, []
        for i, (a, t) in enumerate(zip(args, types)):
            if a[0] == "fcn":
                return
            symbols["x%d" % i] = t
            exprs.append("x%d" % i)
        try:
            got = ast.inferType(titus.reader.jsonToAst.expr({f.name: exprs}), symbols, version=version)
        except PFASemanticException as err:
            raise Violation("%s resolves to %r, but the expression is refused: %s" % (what, sig, err))
        if not any(eqtype(got, t) for t in want[1]):
            raise Violation("expression %s has type %s, expected %s" % (what, got, show(sorted(want[1], key=repr))))


def label_count(c):
    return repr(c.params).count("Wild")


# --- use in a document

POS = ["output", "set", "cell-to", "pool-to", "call", "ret", "new-array", "new-map", "new-record", "attr-to", "upcast", "map-fcn", "emit", "let-then"]


def use(d):
    e = genenv(d, 3)
    e.multinum = False
    x = gen_type(d, e, depth=2)
    y = x if d.chance(1, 4) else edit(d, x, e)
    if d.bool():
        x, y = y, x
    # a type that is not a union but accepts all members of one is a listed finding (the value stays tagged)
    def flat(a, b):
        if b[0] == "union" and a[0] != "union":
            return True
        if a[0] == b[0] and a[0] in ("array", "map"):
            return flat(a[1], b[1])
        if a[0] == "union":
            return sum(t in NUMERIC for t in a[1]) > 1 or any(flat(t, u) for t in a[1] for u in (b[1] if b[0] == "union" else [b]))
        return b[0] == "union" and sum(t in NUMERIC for t in b[1]) > 1
    if flat(x, y):
        raise Discard()
    pos = d.choice(POS)
    if pos in ("call", "emit"):
        # a signature takes a union only if its members are members of the union it expects
        want = any(True for _ in fits(x, y, Labels(), e))
    elif pos == "map-fcn":
        want = bool(resolve([("array", ("wild", "A", None)), ("fcn", (("wild", "A", None),), ("wild", "B", None))], ("array", ("wild", "B", None)), [ARRAY(y), ("fcn", (x,), x)], e))
    else:
        want = avt.accepts(x, y, e)
    declared = set()
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "y", "type": tojson(y, e, declared)}, {"name": "x", "type": tojson(x, e, declared)}]}}
    X = tojson(x, e, declared)
    out = X
    val = "input.y"
    if pos == "output":
        act = [val]
    elif pos == "set":
        act = [{"let": {"v": "input.x"}}, {"set": {"v": val}}, "v"]
    elif pos == "let-then":
        act = [{"let": {"v": "input.x"}}, {"if": True, "then": [{"set": {"v": val}}]}, "v"]
    elif pos in ("cell-to", "pool-to"):
        ctype = {"type": "array", "items": X}
        if pos == "cell-to":
            doc["cells"] = {"c": {"type": ctype, "init": []}}
            act = [{"cell": "c", "to": {"type": ctype, "new": ["input.x"]}}, {"cell": "c", "path": [0], "to": val}, {"attr": {"cell": "c"}, "path": [0]}]
        else:
            doc["pools"] = {"p": {"type": X}}
            act = [{"pool": "p", "path": [{"string": "k"}], "to": val, "init": "input.x"}, {"pool": "p", "path": [{"string": "k"}], "to": val, "init": "input.x"}, {"pool": "p", "path": [{"string": "k"}]}]
    elif pos == "call":
        doc["fcns"] = {"f": {"params": [{"p": X}], "ret": X, "do": ["p"]}}
        act = [{"u.f": [val]}]
    elif pos == "ret":
        doc["fcns"] = {"f": {"params": [{"p": tojson(y, e, declared)}], "ret": X, "do": ["p"]}}
        act = [{"u.f": [val]}]
    elif pos == "new-array":
        act = [{"attr": {"type": {"type": "array", "items": X}, "new": ["input.x", val]}, "path": [1]}]
    elif pos == "new-map":
        act = [{"attr": {"type": {"type": "map", "values": X}, "new": {"k": val}}, "path": [{"string": "k"}]}]
    elif pos == "new-record":
        rec = {"type": "record", "name": "Rec", "fields": [{"name": "x", "type": X}]}
        act = [{"attr": {"type": rec, "new": {"x": val}}, "path": [{"string": "x"}]}]
    elif pos == "attr-to":
        act = [{"attr": {"attr": "input", "path": [{"string": "x"}], "to": val}, "path": [{"string": "x"}]}]
    elif pos == "upcast":
        act = [{"upcast": val, "as": X}]
    elif pos == "map-fcn":
        doc["fcns"] = {"f": {"params": [{"p": X}], "ret": X, "do": ["p"]}}
        act = [{"attr": {"a.map": [{"type": {"type": "array", "items": tojson(y, e, declared)}, "new": [val]}, {"fcn": "u.f"}]}, "path": [0]}]
    elif pos == "emit":
        doc["method"] = "emit"
        act = [{"emit": val}]
    doc["output"] = out
    doc["action"] = act
    d.note(doc)
    d.sut()
    got = compile_outcome(json.loads(json.dumps(doc)))
    d.label(pos, "accepted" if want else "refused")
    if compound(x) or compound(y) or x != y:
        d.nontrivial(repr(doc))
    if got[0] not in ("ok", "semantic"):
        raise Violation("%s of %s as %s: %s" % (pos, J(y, e), J(x, e), show(got)))
    if (got[0] == "ok") != want:
        raise Violation("%s of %s where %s is expected: %s" % (pos, J(y, e), J(x, e), show(got)))
    if not want:
        return
    eng = build(json.loads(json.dumps(doc)))
    for _ in range(2):
        vy, vx = avt.gen_value(d, y, e), avt.gen_value(d, x, e)
        seen = []
        if pos == "emit":
            eng.emit = seen.append
        r = outcome(eng.action, {"y": avt.toinput(vy, y, e), "x": avt.toinput(vx, x, e)})
        if r[0] != "ok":
            raise Violation("%s of %s where %s is expected, value %s: %s" % (pos, J(y, e), J(x, e), show(vy), show(r)))
        v = seen[0] if pos == "emit" else r[1]
        if not avt.conforms(v, x, e):
            raise Violation("%s of %s as %s: the value %s became %s" % (pos, J(y, e), J(x, e), show(vy), show(v)))


FLAT = [(["int", "double"], "double"), (["long", "double"], "double"), (["int", "long"], "long"), (["int", "long"], "double")]


def flat_doc(u, t):
    return {"input": u, "output": "double", "fcns": {"f": {"params": [{"x": t}], "ret": "double", "do": [{"+": ["x", 0.5]}]}}, "action": [{"let": {"v": {"type": t, "value": 0}}}, {"set": {"v": "input"}}, {"u.f": ["v"]}]}


def flat_fails(u, t):
    e = build(flat_doc(u, t))
    try:
        return outcome(e.action, {u[0]: 3}) != ("ok", 3.5)
    except Exception:
        return True


def flatunion(d):
    """a union of numbers is accepted as a number: then its values have to work as numbers"""
    u, t = d.choice(FLAT)
    d.note((u, t))
    d.sut()
    d.nontrivial(repr((u, t)))
    if compile_outcome(flat_doc(u, t))[0] == "ok" and flat_fails(u, t):
        raise Violation("a value of %s is accepted as a %s but cannot be used as one" % (u, t), "union-as-number")


def probe_flat():
    u, t = FLAT[0]
    return compile_outcome(flat_doc(u, t))[0] == "ok" and flat_fails(u, t)


# --- lifespans

def ver(d):
    return (d.choice([0, 0, 1, 2, 10]), d.choice([0, 1, 7, 8, 9, 10]), d.choice([0, 1, 2, 9, 10]))


def lifespan(d):
    a, b, c, n = ver(d), ver(d), ver(d), ver(d)
    mk = lambda v: None if v is None else PFAVersion(*v)
    A_, B_ = PFAVersion(*a), PFAVersion(*b)
    d.note((a, b, c, n))
    d.sut()
    if (A_ < B_, A_ >= B_, B_ < A_, B_ >= A_) != (a < b, a >= b, b < a, b >= a):
        raise Violation("ordering of versions %s and %s" % (A_, B_))
    s = PFAVersion.fromString("%d.%d.%d" % a)
    if (s.major, s.minor, s.release) != a or repr(s) != "%d.%d.%d" % a:
        raise Violation("version %s read as %r" % (a, s))
    bad = d.choice(["", "1", "1.2", "1.2.3.4", "a.b.c", "1.2.x", "-1.2.3", "1.2.", "1,2,3"])
    try:
        got = PFAVersion.fromString(bad)
    except ValueError:
        pass
    else:
        raise Violation("version %r read as %r" % (bad, got))
    birth = d.choice([None, a])
    dep, death = (None, None) if d.chance(1, 4) else (b, c)
    if d.chance(1, 8):
        dep = None
    d.nontrivial(repr((birth, dep, death, n)))
    legal = (dep is None) == (death is None) and (dep is None or dep < death) and (birth is None or dep is None or birth < dep)
    try:
        span = Lifespan(mk(birth), mk(dep), mk(death), "x")
    except ValueError:
        if legal:
            raise Violation("Lifespan(%s, %s, %s) is refused" % (birth, dep, death))
        return
    if not legal:
        raise Violation("Lifespan(%s, %s, %s) is not refused" % (birth, dep, death))
    N = PFAVersion(*n)
    current = (birth is None or n >= birth) and (dep is None or n < dep)
    deprecated = dep is not None and dep <= n < death
    if (bool(span.current(N)), bool(span.deprecated(N))) != (current, deprecated):
        raise Violation("Lifespan(%s, %s, %s) at %s: current %s, deprecated %s" % (birth, dep, death, n, span.current(N), span.deprecated(N)))
    sig = Sig([{"x": P.Int()}], P.Int(), span)
    if (sig.accepts([A(INT, None)], N) is not None) != (current or deprecated):
        raise Violation("a signature with Lifespan(%s, %s, %s) at %s: %s" % (birth, dep, death, n, sig.accepts([A(INT, None)], N)))


DEPRECATED = [("rand.uuid", [], "string", []), ("model.reg.residual", ["double", "double"], "double", [1.0, 2.0]), ("model.reg.pull", ["double", "double", "double"], "double", [1.0, 2.0, 3.0]), ("s.number", ["long"], "string", [12])]


def versions(d):
    """a document that uses a deprecated function is accepted exactly for the versions in which the function exists"""
    f, params, ret, args = d.choice(DEPRECATED)
    v = d.choice([(0, 7, 0), (0, 7, 1), (0, 7, 2), (0, 8, 0), (0, 8, 1), (0, 8, 99), (0, 9, 0), (0, 9, 1), (0, 10, 0), (1, 0, 0), (0, 0, 1)])
    table = {g.name: g for g in functions()}
    if f not in table:
        raise Discard()
    span = cases_of(table[f])[0].lifespan
    if span.death is None:
        raise Discard()
    doc = {"input": "null", "output": ret, "action": [{f: [{"type": p, "value": a} for p, a in zip(params, args)]}]}
    ver_ = "%d.%d.%d" % v
    death = (span.death.major, span.death.minor, span.death.release)
    d.note((doc, ver_))
    d.sut()
    d.nontrivial(repr((doc, ver_)))
    import io, sys
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        got = compile_outcome(doc, version=ver_)
    finally:
        sys.stderr = err
    want = v < death
    d.label("exists" if want else "gone")
    if (got[0] == "ok") != want:
        raise Violation("%s in version %s: %s" % (f, ver_, show(got)))


PROBES = {"union-as-number": probe_flat}
SUBS = [Sub("flatunion", flatunion, 8, 16), Sub("accept", accept, 600, 20000), Sub("transitive", transitive, 250, 6000), Sub("fcntypes", fcntypes, 150, 3000), Sub("commontype", commontype, 400, 12000), Sub("signature", signature, 900, 40000), Sub("use", use, 350, 10000),
        Sub("lifespan", lifespan, 250, 4000), Sub("versions", versions, 30, 60)]
