"""C35: tree tests and walks against a reference."""
import copy
import json
import math

import avt
from pbt import Violation, Discard, close, show
from runner import Sub
from engines import Err, build, outcome, refoutcome, libcall, check_call

RULE = ("one generated datum type, comparison or tree, and several data per case; non-trivial = the reference outcome was computed for at least one comparison that reads a field; "
        "distinct = distinct (document, datum)")
ASSUMPTIONS = ["whether not-a-number is in a list of numbers that has not-a-number is left open", "tree node types without a namespace",
               "a comparison is well typed when the type of the value accepts the type of the field, or both are numeric; a numeric field against a non-numeric branch of a union value is a bad value type, "
               "and so is in/notIn against a branch that is not an array",
               "for a non-numeric field and a union value of another branch, both the error and the union's sort order are accepted",
               "missing values: isMissing/notMissing belong to simpleTest; missingTest gives null for a null field except for alwaysTrue/alwaysFalse"]
FACTOR = {"quick": 1, "thorough": 10}
INF, NAN = float("inf"), float("nan")
NUMERIC = ("int", "long", "float", "double")
OPS = ["<", "<=", ">", ">=", "==", "!=", "in", "notIn", "alwaysTrue", "alwaysFalse", "isMissing", "notMissing"]
COLORS = {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue", "another"]}


def tname(t):
    if isinstance(t, list):
        return "union"
    return t if isinstance(t, str) else (t["name"] if "name" in t else t["type"])


def value(d, t):
    n = tname(t)
    if isinstance(t, list):
        b = d.choice(t)
        return None if b == "null" else {tname(b): value(d, b)}
    if n == "null":
        return None
    if n in ("int", "long"):
        return d.int(-3, 3)
    if n in ("float", "double"):
        return d.choice([INF, -INF, NAN]) if d.chance(1, 15) else d.int(-6, 6) / 2.0
    if n == "string":
        return d.choice(["", "a", "b", "ab", "red", "double", "array", u"\u00e9", "B"])
    if n == "boolean":
        return d.bool()
    if n == "Color":
        return d.choice(COLORS["symbols"])
    if n == "array":
        return [value(d, t["items"]) for _ in range(d.int(0, 4))]
    raise AssertionError(t)


def accepts(a, b):
    """does a accept b, for the types used here"""
    if isinstance(b, list):
        return all(accepts(a, x) for x in b)
    if isinstance(a, list):
        return any(accepts(x, b) for x in a)
    na, nb = tname(a), tname(b)
    if na in NUMERIC and nb in NUMERIC:
        return NUMERIC.index(nb) <= NUMERIC.index(na)
    if na == "array" and nb == "array":
        return accepts(a["items"], b["items"])
    return na == nb


def cmp(t, x, y):
    n = tname(t)
    if n == "Color":
        x, y = COLORS["symbols"].index(x), COLORS["symbols"].index(y)
    elif n in NUMERIC:
        if x != x or y != y:
            return (x != x) - (y != y)
    elif n == "array":
        for a, b in zip(x, y):
            c = cmp(t["items"], a, b)
            if c:
                return c
        return (len(x) > len(y)) - (len(x) < len(y))
    return (x > y) - (x < y)


class Either(Exception):
    """more than one outcome is acceptable"""


def comparison(ft, fv, op, vt, v, missing, codes):
    """reference for one comparison -> True, False or None; ft: field type, fv: field value (tagged), vt, v: value"""
    badop, badval = codes
    if op == "alwaysTrue":
        return True
    if op == "alwaysFalse":
        return False
    if not missing and op == "isMissing":
        return fv is None
    if not missing and op == "notMissing":
        return fv is not None
    if missing and isinstance(ft, list):
        rest = [x for x in ft if x != "null"]
        ft = rest[0] if len(rest) == 1 else rest
        if fv is not None and not isinstance(ft, list):
            fv, = fv.values()
    branches = vt if isinstance(vt, list) else [vt]
    if op in ("in", "notIn"):
        if not any(tname(b) == "array" and accepts(b["items"], ft) for b in branches):
            raise Err(badval)
        if isinstance(vt, list):
            if v is None or list(v) != ["array"]:
                raise Err(badval)
            v = v["array"]
        if missing and fv is None:
            return None
        if isinstance(fv, float) and fv != fv and any(x != x for x in v):
            raise Either()              # whether NaN is in a list is left open
        hit = any(x == fv and isinstance(x, bool) == isinstance(fv, bool) for x in v)
        return hit if op == "in" else not hit
    if not accepts(vt, ft):
        if not (not isinstance(ft, list) and tname(ft) in NUMERIC and not isinstance(vt, list) and tname(vt) in NUMERIC):
            raise Err(badval)
    if missing and fv is None:
        return None
    if not isinstance(ft, list) and tname(ft) in NUMERIC:
        if isinstance(vt, list):
            if v is None or list(v)[0] not in NUMERIC:
                raise Err(badval)
            v, = v.values()
        if op not in OPS[:6]:
            raise Err(badop)
        return {"<": fv < v, "<=": fv <= v, ">": fv > v, ">=": fv >= v, "==": fv == v, "!=": fv != v}[op]
    if isinstance(vt, list):
        tag = "null" if v is None else list(v)[0]
        mine = ("null" if fv is None else list(fv)[0]) if isinstance(ft, list) else tname(ft)
        if op not in OPS[:6]:
            raise Err(badop)
        if tag != mine:
            raise Either()
        b = [x for x in branches if tname(x) == tag][0]
        c = 0 if v is None else cmp(b, list(fv.values())[0] if isinstance(ft, list) else fv, list(v.values())[0])
    else:
        if op not in OPS[:6]:
            raise Err(badop)
        c = cmp(vt, fv, v)
    return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]


# ------------------------------------------------------------------ documents

FIELDTYPES = ["int", "long", "float", "double", "string", "boolean", COLORS]


class Setup(object):
    """datum type, comparison type"""
    def __init__(self, d, missing, simple=False, ns=None):
        self.d, self.missing = d, missing
        n = d.int(1, 4)
        self.fields = []
        for i in range(n):
            t = d.choice(FIELDTYPES)
            if missing and d.bool():
                t = ["null", t] if d.bool() else [t, "null"]
            elif not missing and d.chance(1, 5):
                t = ["null", t]
            elif d.chance(1, 12):
                t = {"type": "array", "items": d.choice(["double", "string"])}
            self.fields.append(("f%d" % i, t))
        base = [t for _, t in self.fields]
        flat = [x for t in base for x in (t if isinstance(t, list) else [t]) if x != "null"]
        k = d.below(6)
        pick = lambda: d.choice(flat) if d.chance(3, 4) else d.choice(FIELDTYPES)
        if k <= 1:
            self.vt = pick()
            if tname(self.vt) == "array" and d.bool():
                self.vt = {"type": "array", "items": self.vt}
        elif k == 2:
            self.vt = {"type": "array", "items": pick()}
        else:
            opts = [pick(), pick(), {"type": "array", "items": pick()}]
            if d.chance(1, 4) or (not missing and any(isinstance(t, list) for t in base) and d.bool()):
                opts.append("null")
            us = []
            for o in d.shuffle(opts):
                # one branch per tag, and one numeric branch (a record's value could not tell them apart otherwise)
                if all(tname(o) != tname(u) and not (tname(o) in NUMERIC and tname(u) in NUMERIC) for u in us):
                    us.append(o)
            self.vt = us if len(us) > 1 else us[0]
        self.ns = ns

    def datumtype(self):
        seen = set()
        return {"type": "record", "name": "Datum", "fields": [{"name": n, "type": decl(t, seen)} for n, t in self.fields]}, seen

    def cmpfields(self, seen):
        return [{"name": "field", "type": {"type": "enum", "name": "Fields", "symbols": [n for n, _ in self.fields]}},
                {"name": "operator", "type": "string"}, {"name": "value", "type": decl(self.vt, seen)}]

    def datum(self):
        return {n: value(self.d, t) for n, t in self.fields}

    def comparison(self):
        d = self.d
        op = d.choice(OPS[:8]) if d.chance(3, 4) else d.choice(OPS + ["<>", "", "IN"])
        return {"field": d.choice(self.fields)[0], "operator": op, "value": value(d, self.vt)}

    def good(self, tries=25):
        """a comparison that is well typed for some value of its field, if one turns up"""
        for _ in range(tries):
            c = self.comparison()
            try:
                r = self.ref(self.datum(), c, (0, 1))
                if r is not None:
                    return c
            except (Err, Either):
                pass
        return c

    def ref(self, datum, c, codes, missing=None):
        f = c["field"]
        return comparison(dict(self.fields)[f], datum[f], c["operator"], self.vt, c["value"], self.missing if missing is None else missing, codes)


def decl(t, seen):
    if isinstance(t, list):
        return [decl(x, seen) for x in t]
    if isinstance(t, dict) and t["type"] == "array":
        return dict(t, items=decl(t["items"], seen))
    if isinstance(t, dict) and "name" in t:
        if t["name"] in seen:
            return t["name"]
        seen.add(t["name"])
    return t


def agree(d, what, doc, datum, got, ref):
    d.nontrivial(repr((json.dumps(doc, sort_keys=True), datum)))
    try:
        want = refoutcome(ref)
    except Either:
        d.label("either")
        if got[0] not in ("ok", "err"):
            raise Violation("%s: %s for %s" % (what, show(got), show(datum)))
        return
    d.label("err %s" % (want[1],) if want[0] != "ok" else "ok %s" % want[1] if want[1] is None or isinstance(want[1], bool) else "ok")
    if got != want and not close(list(got), list(want), 0, 0):
        raise Violation("%s: got %s, expected %s for %s" % (what, show(got), show(want), show(datum)))


def one(d, missing):
    s = Setup(d, missing)
    dt, seen = s.datumtype()
    ct = {"type": "record", "name": "Comparison", "fields": d.shuffle(s.cmpfields(seen))}
    fcn = "model.tree.missingTest" if missing else "model.tree.simpleTest"
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "d", "type": dt}, {"name": "c", "type": ct}]},
           "output": ["null", "boolean"] if missing else "boolean", "action": [{fcn: ["input.d", "input.c"]}]}
    d.note(doc)
    e = build(doc)
    codes = (32010, 32011) if missing else (32000, 32001)
    for _ in range(6):
        x = {"d": s.datum(), "c": s.good() if d.chance(2, 3) else s.comparison()}
        d.note(x)
        keep = copy.deepcopy(x)
        d.sut()
        got = outcome(e.action, x)
        if not close(keep, x, 0, 0):
            raise Violation("%s changed its input %s" % (fcn, show(keep)))

        def ref():
            r = s.ref(x["d"], x["c"], codes)
            return (None if r is None else {"boolean": r}) if missing else r
        agree(d, fcn, doc, x, got, ref)


def compound(d):
    """and, or, xor of tests and surrogates of missing-aware tests, with user-written tests that may raise errors"""
    surrogate = d.bool()
    T = {"type": "record", "name": "T", "fields": [{"name": "r", "type": "int"}]}
    D = {"type": "record", "name": "Dat", "fields": [{"name": "x", "type": "int"}]}
    # r: 0 false, 1 true, 2 null (or error), 3 error, 4 compares with the datum
    if surrogate:
        body = {"cond": [{"if": {"==": ["c.r", 0]}, "then": False}, {"if": {"==": ["c.r", 1]}, "then": True}, {"if": {"==": ["c.r", 2]}, "then": None},
                         {"if": {"==": ["c.r", 3]}, "then": {"error": "boom", "code": -7}}], "else": {"==": ["d.x", 1]}}
        f = {"params": [{"d": "Dat"}, {"c": "T"}], "ret": ["null", "boolean"], "do": [body]}
    else:
        body = {"cond": [{"if": {"==": ["c.r", 0]}, "then": False}, {"if": {"==": ["c.r", 1]}, "then": True},
                         {"if": {"==": ["c.r", 3]}, "then": {"error": "boom", "code": -7}}], "else": {"==": ["d.x", 1]}}
        f = {"params": [{"d": "Dat"}, {"c": "T"}], "ret": "boolean", "do": [body]}
    inp = {"type": "record", "name": "In", "fields": [{"name": "d", "type": D}, {"name": "o", "type": "string"}, {"name": "cs", "type": {"type": "array", "items": T}}]}
    fcns = {}
    if d.bool():
        fcns["test"] = f
        f = {"fcn": "u.test"}
    doc = {"input": inp, "output": "boolean", "fcns": fcns,
           "action": [{"model.tree.surrogateTest": ["input.d", "input.cs", f]} if surrogate else {"model.tree.compoundTest": ["input.d", "input.o", "input.cs", f]}]}
    e = build(doc)
    for _ in range(6):
        x = {"d": {"x": d.int(0, 1)}, "o": d.choice(["and", "or", "xor", "and", "or", "xor", "nand", ""]),
             "cs": [{"r": d.weighted([(3, 0), (3, 1), (2, 2 if surrogate else 4), (1, 3), (1, 4)])} for _ in range(d.int(0, 5))]}
        d.note((doc["action"], x))
        d.sut()
        got = outcome(e.action, x)

        def test(c):
            r = c["r"]
            if r == 3:
                from engines import UserErr
                raise UserErr("boom", -7)
            return {0: False, 1: True, 2: None, 4: x["d"]["x"] == 1}[r]

        def ref():
            if surrogate:
                for c in x["cs"]:
                    r = test(c)
                    if r is not None:
                        return r
                raise Err(32030)
            if x["o"] == "and":
                for c in x["cs"]:
                    if not test(c):
                        return False
                return True
            if x["o"] == "or":
                for c in x["cs"]:
                    if test(c):
                        return True
                return False
            if x["o"] == "xor":
                return sum(test(c) for c in x["cs"]) % 2 == 1
            raise Err(32020)
        agree(d, "surrogateTest" if surrogate else "compoundTest", doc, x, got, ref)


LEAVES = ["string", "double", "int", "boolean", "null", {"type": "array", "items": "string"}, {"type": "map", "values": "int"},
          {"type": "record", "name": "Leaf", "fields": [{"name": "score", "type": "double"}, {"name": "pass", "type": "string"}]}, "Color"]


def leafvalue(d, t, i):
    n = tname(t)
    if n == "string":
        return {"string": "leaf%d" % i}
    if n == "double":
        return {"double": i + 0.5}
    if n == "int":
        return {"int": i}
    if n == "boolean":
        return {"boolean": i % 2 == 0}
    if n == "null":
        return None
    if n == "array":
        return {"array": ["leaf%d" % i] * (i % 3)}
    if n == "map":
        return {"map": {"a": i}} if i % 3 else {"map": {}}
    if n.endswith("Leaf"):
        return {n: {"score": i + 0.5, "pass": "leaf%d" % i}}
    return {"Color": COLORS["symbols"][i % 4]}


def untag(v):
    return None if v is None else list(v.values())[0]


class Tree(object):
    def __init__(self, d, s, leaf, missing, name):
        self.d, self.s, self.leaf, self.missing, self.name = d, s, leaf, missing, name
        self.leaves = 0
        self.nodes = 0

    def node(self, depth):
        self.nodes += 1
        n = self.s.comparison() if self.d.chance(1, 15) else self.s.good()
        for k in ["pass", "fail"] + (["missing"] if self.missing else []):
            n[k] = self.child(depth - 1)
        return n

    def child(self, depth):
        if depth <= 0 or self.nodes >= 12 or self.d.chance(1, 3):
            self.leaves += 1
            return leafvalue(self.d, self.leaf, self.leaves)
        return {self.name: self.node(depth)}


def walk(d, kind):
    missing = kind == "missingWalk"
    s = Setup(d, missing)
    dt, seen = s.datumtype()
    leaf = d.choice(LEAVES)
    if leaf == "Color":
        leaf = COLORS
    # named types are declared first, at top level, so that their names do not depend on the tree's namespace
    named = []
    for t in [x for _, x in s.fields] + [leaf] + (s.vt if isinstance(s.vt, list) else [s.vt]):
        for x in (t if isinstance(t, list) else [t]):
            while isinstance(x, dict) and x["type"] == "array":
                x = x["items"]
            if isinstance(x, dict) and "name" in x and x not in named:
                named.append(x)
    ns = None
    full = (ns + "." if ns else "") + "Tree"
    fs = s.cmpfields(seen)
    kids = ["pass", "fail"] + (["missing"] if missing else [])
    order = d.bool()
    for k in kids:
        fs.append({"name": k, "type": [full, leaf] if order else [leaf, full]})
    tt = {"type": "record", "name": "Tree", "fields": d.shuffle(fs)}
    if ns:
        tt["namespace"] = ns
    fields = [{"name": "z%d" % i, "type": ["null", t]} for i, t in enumerate(named)] + [{"name": "d", "type": dt}, {"name": "t", "type": tt}]
    doc_in = redecl({"type": "record", "name": "In", "fields": fields}, set())
    out = tname(leaf) if isinstance(leaf, dict) and "name" in leaf else leaf
    fcns = {}
    codes = (32060, 32061)
    if kind == "simpleTree":
        action = {"model.tree.simpleTree": ["input.d", "input.t"]}
    else:
        tf = "missingTest" if missing else "simpleTest"
        codes = (32010, 32011) if missing else (32000, 32001)
        f = {"params": [{"dd": "Datum"}, {"tt": full}], "ret": ["null", "boolean"] if missing else "boolean", "do": [{"model.tree." + tf: ["dd", "tt"]}]}
        if d.bool():
            fcns["test"] = f
            f = {"fcn": "u.test"}
        action = {"model.tree." + kind: ["input.d", "input.t", f]}
    doc = {"input": doc_in, "output": out, "action": [action], "fcns": fcns}
    d.note(doc)
    e = build(doc)
    for _ in range(3):
        tree = Tree(d, s, leaf, missing, full).node(d.int(1, 5))
        for _ in range(3):
            x = {"d": s.datum(), "t": tree}
            for i in range(len(named)):
                x["z%d" % i] = None
            d.note(x)
            keep = copy.deepcopy(x)
            d.sut()
            got = outcome(e.action, x)
            if not close(keep, x, 0, 0):
                raise Violation("%s changed its input %s" % (kind, show(keep)))

            def ref():
                node = tree
                while True:
                    r = s.ref(x["d"], node, codes)
                    nxt = node["missing"] if r is None else node["pass"] if r else node["fail"]
                    if nxt is None or list(nxt) != [full]:
                        return untag(nxt)
                    node = nxt[full]
            agree(d, kind, doc, x, got, ref)


def redecl(t, seen):
    """declare each named type at its first use"""
    if isinstance(t, list):
        return [redecl(x, seen) for x in t]
    if isinstance(t, dict):
        if "name" in t and t["type"] in ("record", "enum"):
            if t["name"] in seen:
                return t["name"]
            seen.add(t["name"])
            if t["type"] == "record":
                return dict(t, fields=[dict(f, type=redecl(f["type"], seen)) for f in t["fields"]])
            return t
        if t["type"] == "array":
            return dict(t, items=redecl(t["items"], seen))
        if t["type"] == "map":
            return dict(t, values=redecl(t["values"], seen))
        return t
    if t in ("Color", "Leaf") and t not in seen:
        raise AssertionError(t)
    return t


SUBS = [Sub("simpleTest", lambda d: one(d, False), 300, 6000), Sub("missingTest", lambda d: one(d, True), 300, 6000),
        Sub("compound and surrogate", compound, 150, 3000),
        Sub("simpleTree", lambda d: walk(d, "simpleTree"), 200, 4000), Sub("simpleWalk", lambda d: walk(d, "simpleWalk"), 150, 3000),
        Sub("missingWalk", lambda d: walk(d, "missingWalk"), 200, 4000)]
