"""Avro types and values as used by the checks (an independent model of the data layer).

A type is a tuple: ("null",) ("boolean",) ("int",) ("long",) ("float",) ("double",) ("string",) ("bytes",)
("array", T) ("map", T) ("union", (T, ...)) ("record", name) ("enum", name) ("fixed", name).
Named types are defined in an Env. A model value is: None, bool, int, float, str, bytes, list, dict
(maps and records), and U(tag, value) for a non-null member of a union.
"""
import math

INT_MIN, INT_MAX = -2**31, 2**31 - 1
LONG_MIN, LONG_MAX = -2**63, 2**63 - 1

NULL, BOOLEAN, INT, LONG, FLOAT, DOUBLE, STRING, BYTES = [(x,) for x in
                                                          ("null", "boolean", "int", "long", "float", "double", "string", "bytes")]
NUMERIC = (INT, LONG, FLOAT, DOUBLE)
PRIMS = (NULL, BOOLEAN, INT, LONG, FLOAT, DOUBLE, STRING, BYTES)


def ARRAY(t):
    return ("array", t)


def MAP(t):
    return ("map", t)


def UNION(*ts):
    return ("union", tuple(ts))


class U(object):
    __slots__ = ("tag", "v")

    def __init__(self, tag, v):
        self.tag = tag
        self.v = v

    def __repr__(self):
        return "U(%r, %r)" % (self.tag, self.v)

    def __eq__(self, o):
        return isinstance(o, U) and o.tag == self.tag and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.tag, repr(self.v)))


class Env(object):
    def __init__(self):
        self.records = {}      # name -> [(field, type, extra dict)]
        self.enums = {}        # name -> [symbols]
        self.fixeds = {}       # name -> size
        self.order = []
        self.multinum = False  # several numeric, enum or fixed types in one union (library argument matching merges or refuses them)

    def names(self):
        return list(self.order)

    def add_record(self, name, fields):
        self.records[name] = fields
        self.order.append(name)
        return ("record", name)

    def add_enum(self, name, symbols):
        self.enums[name] = symbols
        self.order.append(name)
        return ("enum", name)

    def add_fixed(self, name, size):
        self.fixeds[name] = size
        self.order.append(name)
        return ("fixed", name)

    def types(self):
        out = []
        for n in self.order:
            out.append(("record" if n in self.records else "enum" if n in self.enums else "fixed", n))
        return out


def tag(t):
    return t[1] if t[0] in ("record", "enum", "fixed") else t[0]


def tojson(t, env=None, declared=None):
    """JSON schema; declares a named type on first use when `declared` (a set) is given, else uses names only"""
    k = t[0]
    if k in ("array",):
        return {"type": "array", "items": tojson(t[1], env, declared)}
    if k == "map":
        return {"type": "map", "values": tojson(t[1], env, declared)}
    if k == "union":
        return [tojson(x, env, declared) for x in t[1]]
    if k in ("record", "enum", "fixed"):
        name = t[1]
        if declared is None or name in declared:
            return name
        declared.add(name)
        if k == "enum":
            return {"type": "enum", "name": name, "symbols": list(env.enums[name])}
        if k == "fixed":
            return {"type": "fixed", "name": name, "size": env.fixeds[name]}
        return {"type": "record", "name": name,
                "fields": [dict({"name": f[0], "type": tojson(f[1], env, declared)}, **(f[2] if len(f) > 2 else {}))
                           for f in env.records[name]]}
    return k


def contains(t, pred, env, seen=None):
    seen = set() if seen is None else seen
    if pred(t):
        return True
    if t[0] in ("array", "map"):
        return contains(t[1], pred, env, seen)
    if t[0] == "union":
        return any(contains(x, pred, env, seen) for x in t[1])
    if t[0] == "record":
        if t[1] in seen:
            return False
        seen.add(t[1])
        return any(contains(f[1], pred, env, seen) for f in env.records[t[1]])
    return False


# ---------------------------------------------------------------- the acceptance relation ("a value of type b can be used as a")

RANK = {"int": 0, "long": 1, "float": 2, "double": 3}


def accepts(a, b, env):
    if b[0] == "union":
        if a[0] == "union":
            return all(any(accepts(x, y, env) for x in a[1]) for y in b[1])
        return all(accepts(a, y, env) for y in b[1])
    if a[0] == "union":
        return any(accepts(x, b, env) for x in a[1])
    if a[0] in RANK and b[0] in RANK:
        return RANK[a[0]] >= RANK[b[0]]
    if a[0] != b[0]:
        return False
    if a[0] in ("array", "map"):
        return accepts(a[1], b[1], env)
    if a[0] in ("record", "enum", "fixed"):
        return a[1] == b[1]
    return True


# ---------------------------------------------------------------- generators

def gen_env(d, maxn=4, recursive=True, orders=False, prefix="", namespace=False):
    env = Env()
    n = d.below(maxn + 1)
    for i in range(n):
        k = d.below(4)
        nm = prefix + "T%d" % i
        if namespace and d.chance(1, 3):
            nm = "com.ns." + nm
        if k == 0:
            env.add_enum(nm, ["A", "B", "C", "D"][:1 + d.below(4)] if d.bool() else ["zed", "one", "mid"])
        elif k == 1:
            env.add_fixed(nm, 1 + d.below(4))
        else:
            fields = []
            nf = d.below(4)
            for j in range(nf):
                ft = gen_type(d, env, depth=1)
                extra = {}
                if orders and d.chance(1, 3):
                    extra["order"] = d.choice(["descending", "ignore", "ascending"])
                fields.append(("f%d" % j, ft, extra))
            if recursive and d.chance(1, 4):
                # a nullable / container self reference
                env.records[nm] = fields
                env.order.append(nm)
                me = ("record", nm)
                fields.append(("next", d.choice([UNION(me, NULL), UNION(NULL, me), ARRAY(me), MAP(me)]), {}))
                continue
            env.add_record(nm, fields)
    return env


def gen_type(d, env, depth=2, prims=PRIMS, union=True, maps=True):
    named = env.types()
    k = d.below(12)
    if depth <= 0 or k < 6:
        return d.choice(prims)
    if k < 7 and named:
        return d.choice(named)
    if k < 9:
        return ARRAY(gen_type(d, env, depth - 1, prims, union, maps))
    if k < 10 and maps:
        return MAP(gen_type(d, env, depth - 1, prims, union, maps))
    if k < 12 and union:
        return gen_union(d, env, depth - 1, prims, maps)
    return d.choice(prims)


def gen_union(d, env, depth, prims=PRIMS, maps=True, lo=2, hi=3):
    out = []
    tags = set()
    for _ in range(d.int(lo, hi) + 2):
        if len(out) >= hi:
            break
        t = gen_type(d, env, depth, prims, union=False, maps=maps)
        if tag(t) in tags or (
                not env.multinum and any(t in NUMERIC and x in NUMERIC or t[0] in ("enum", "fixed") and x[0] == t[0] for x in out)):
            continue
        tags.add(tag(t))
        out.append(t)
    if len(out) < 2:
        for t in (NULL, STRING):
            if tag(t) not in tags and len(out) < 2:
                out.append(t)
                tags.add(tag(t))
    return ("union", tuple(out))


class ValOpts(object):
    def __init__(self, nan=False, bigfloat=False, alphabet=None, maxlen=3, keys=None, smallints=False):
        self.smallints = smallints
        self.nan = nan
        self.bigfloat = bigfloat
        self.alphabet = alphabet
        self.maxlen = maxlen
        self.keys = keys or ["a", "b", "c", "one two", u"\u00e9", "", "x.y"]


DEFAULT = ValOpts()


def gen_value(d, t, env, o=DEFAULT, depth=3):
    k = t[0]
    if k == "null":
        return None
    if k == "boolean":
        return d.bool()
    if o.smallints and k in ("int", "long"):
        return d.choice([0, 1, 2, 3, 5, -1, -3, 17])
    if k == "int":
        return d.pfaint()
    if k == "long":
        return d.pfalong()
    if k in ("float", "double"):
        if o.smallints and d.bool():
            return float(d.choice([0, 1, 2, 3, 0.5, 0.25, -1, 1.5]))
        if o.nan and d.chance(1, 12):
            return d.choice([float("nan"), float("inf"), float("-inf")])
        if k == "float" or not o.bigfloat:
            return d.smallint(4000) / 8.0
        return d.pfadouble(special=False)
    if k == "string":
        return d.str(o.alphabet, 0, 5)
    if k == "bytes":
        return bytes(d.choice([0, 65, 97, 127, 128, 200, 255, 10]) for _ in range(d.below(5)))
    if k == "fixed":
        return bytes(d.choice([0, 65, 97, 127, 128, 200, 255, 10]) for _ in range(env.fixeds[t[1]]))
    if k == "enum":
        return d.choice(env.enums[t[1]])
    if k == "array":
        n = d.below((o.maxlen if depth > 0 else 0) + 1)
        return [gen_value(d, t[1], env, o, depth - 1) for _ in range(n)]
    if k == "map":
        n = d.below((o.maxlen if depth > 0 else 0) + 1)
        return {d.choice(o.keys): gen_value(d, t[1], env, o, depth - 1) for _ in range(n)}
    if k == "union":
        ts = t[1]
        if depth <= 0:
            for x in ts:
                if x[0] == "null":
                    return None
            ts = [x for x in ts if x[0] not in ("record", "array", "map", "union")] or ts
        x = d.choice(ts)
        if x[0] == "null":
            return None
        return U(tag(x), gen_value(d, x, env, o, depth - 1))
    if k == "record":
        return {f[0]: gen_value(d, f[1], env, o, depth - 1) for f in env.records[t[1]]}
    raise AssertionError(t)


# ---------------------------------------------------------------- representations

def toinput(v, t, env):
    """Python datum for PFAEngine.action: tagged unions, bytes objects"""
    k = t[0]
    if k == "array":
        return [toinput(x, t[1], env) for x in v]
    if k == "map":
        return {a: toinput(x, t[1], env) for a, x in v.items()}
    if k == "record":
        return {f[0]: toinput(v[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union":
        if v is None:
            return None
        for x in t[1]:
            if tag(x) == v.tag:
                return {v.tag: toinput(v.v, x, env)}
        raise AssertionError((v, t))
    return v


def tojsonvalue(v, t, env):
    """JSON encoding of a value (bytes as latin-1 text)"""
    k = t[0]
    if k == "array":
        return [tojsonvalue(x, t[1], env) for x in v]
    if k == "map":
        return {a: tojsonvalue(x, t[1], env) for a, x in v.items()}
    if k == "record":
        return {f[0]: tojsonvalue(v[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union":
        if v is None:
            return None
        for x in t[1]:
            if tag(x) == v.tag:
                return {v.tag: tojsonvalue(v.v, x, env)}
    if k in ("bytes", "fixed"):
        return v.decode("latin-1")
    return v


def conforms(out, t, env, strictunion=False):
    """does a Python object returned by an engine represent a value of type t?"""
    k = t[0]
    if k == "null":
        return out is None
    if k == "boolean":
        return out is True or out is False
    if k == "int":
        return isinstance(out, int) and not isinstance(out, bool) and INT_MIN <= out <= INT_MAX
    if k == "long":
        return isinstance(out, int) and not isinstance(out, bool) and LONG_MIN <= out <= LONG_MAX
    if k in ("float", "double"):
        return isinstance(out, (int, float)) and not isinstance(out, bool)
    if k == "string":
        return isinstance(out, str)
    if k == "bytes":
        return isinstance(out, bytes) or (isinstance(out, str) and all(ord(c) < 256 for c in out))
    if k == "fixed":
        return (isinstance(out, bytes) or (isinstance(out, str) and all(ord(c) < 256 for c in out))) and len(out) == env.fixeds[t[1]]
    if k == "enum":
        return isinstance(out, str) and out in env.enums[t[1]]
    if k == "array":
        return isinstance(out, (list, tuple)) and all(conforms(x, t[1], env, strictunion) for x in out)
    if k == "map":
        return isinstance(out, dict) and all(isinstance(a, str) and conforms(x, t[1], env, strictunion) for a, x in out.items())
    if k == "record":
        fs = env.records[t[1]]
        return isinstance(out, dict) and set(out) == set(f[0] for f in fs) and all(conforms(out[f[0]], f[1], env, strictunion) for f in fs)
    if k == "union":
        if out is None:
            return any(x[0] == "null" for x in t[1])
        if isinstance(out, dict) and len(out) == 1:
            (tg, val), = out.items()
            if any(tag(x) == tg and conforms(val, x, env, strictunion) for x in t[1]):
                return True
            # a number of a narrower type may keep its tag after it was widened
            if tg in ("int", "long", "float") and any(x[0] in ("long", "float", "double") and accepts(x, (tg,), env) and conforms(val, x, env) for x in t[1]):
                return True
        if strictunion:
            return False
        return any(conforms(out, x, env, strictunion) for x in t[1])
    raise AssertionError(t)


def match(out, want, t, env, rel=0.0, abs_=0.0):
    """does engine output `out` represent model value `want` of type t? (a union member may be tagged or bare)"""
    k = t[0]
    if k == "union":
        if want is None:
            return out is None
        for x in t[1]:
            if tag(x) == want.tag:
                if isinstance(out, dict) and len(out) == 1:
                    (tg, val), = out.items()
                    if tg == want.tag and match(val, want.v, x, env, rel, abs_):
                        return True
                return match(out, want.v, x, env, rel, abs_)
        raise AssertionError((want, t))
    if not conforms(out, t, env):
        return False
    if k in ("bytes", "fixed"):
        return (out if isinstance(out, bytes) else out.encode("latin-1")) == want
    if k in ("float", "double"):
        if want != want:
            return out != out
        if out == want:
            return True
        if rel == 0.0 and abs_ == 0.0:
            return False
        if out != out or math.isinf(out) or math.isinf(want):
            return False
        return abs(out - want) <= max(abs_, rel * max(abs(out), abs(want)))
    if k == "array":
        return len(out) == len(want) and all(match(a, b, t[1], env, rel, abs_) for a, b in zip(out, want))
    if k == "map":
        return set(out) == set(want) and all(match(out[a], want[a], t[1], env, rel, abs_) for a in want)
    if k == "record":
        return all(match(out[f[0]], want[f[0]], f[1], env, rel, abs_) for f in env.records[t[1]])
    return out == want


def model_compare(x, y, t, env):
    """Avro order as the specification gives it: -1, 0, 1; None when the type has no order (maps)"""
    k = t[0]
    if k == "null":
        return 0
    if k in ("int", "long", "string", "bytes", "fixed", "boolean"):
        return (x > y) - (x < y)
    if k in ("float", "double"):
        if x != x or y != y:
            return (x != x) - (y != y)
        return (x > y) - (x < y)
    if k == "enum":
        s = env.enums[t[1]]
        return (s.index(x) > s.index(y)) - (s.index(x) < s.index(y))
    if k == "array":
        for a, b in zip(x, y):
            c = model_compare(a, b, t[1], env)
            if c:
                return c
        return (len(x) > len(y)) - (len(x) < len(y))
    if k == "record":
        for f in env.records[t[1]]:
            o = (f[2] if len(f) > 2 else {}).get("order", "ascending")
            if o == "ignore":
                continue
            c = model_compare(x[f[0]], y[f[0]], f[1], env)
            if c:
                return -c if o == "descending" else c
        return 0
    if k == "union":
        tags = [tag(a) for a in t[1]]
        xi = tags.index("null") if x is None else tags.index(x.tag)
        yi = tags.index("null") if y is None else tags.index(y.tag)
        if xi != yi:
            return -1 if xi < yi else 1
        if x is None:
            return 0
        return model_compare(x.v, y.v, t[1][xi], env)
    raise AssertionError(t)


def fromjson(j, env):
    """JSON schema -> type tuple, collecting named types in env"""
    if isinstance(j, list):
        return ("union", tuple(fromjson(x, env) for x in j))
    if isinstance(j, str):
        if j in ("null", "boolean", "int", "long", "float", "double", "string", "bytes"):
            return (j,)
        return ("record" if j in env.records else "enum" if j in env.enums else "fixed", j)
    k = j["type"]
    if k == "array":
        return ("array", fromjson(j["items"], env))
    if k == "map":
        return ("map", fromjson(j["values"], env))
    if k == "enum":
        return env.add_enum(j["name"], j["symbols"])
    if k == "fixed":
        return env.add_fixed(j["name"], j["size"])
    if k == "record":
        env.add_record(j["name"], None)
        env.records[j["name"]] = [(f["name"], fromjson(f["type"], env), {}) for f in j["fields"]]
        return ("record", j["name"])
    return (k,)
