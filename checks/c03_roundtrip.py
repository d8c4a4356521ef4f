"""C03: reading a document (JSON text, parsed JSON, YAML) and writing it back preserves it; the re-read document behaves the same."""
import base64
import copy
import json
import re

import yaml

import avt

import engines
from drive import Pair
from engines import compile_outcome, outcome, refoutcome
from pbt import Violation, Discard, show
from progs import Program, RefEngine
from runner import Sub
from titus.reader import jsonToAst, yamlToAst
from titus.errors import PFASyntaxException
from titus.genpy import PFAEngine

RULE = ("generated documents that use every section, field, special form and literal notation (syntactically valid, not necessarily well-typed), with named types, namespaces, forward references, field defaults "
        "and orders: read from JSON text, from parsed JSON with locator marks, and from YAML printed by PyYAML, written back (with and without line numbers) and compared with an independent normal form of the "
        "document; equality of the trees, inequality after one change anywhere; and well-typed documents whose original, re-read and YAML engines are run side by side on generated inputs; "
        "non-trivial when the document has at least ten expressions; distinct = distinct documents")
ASSUMPTIONS = ["documentation and aliases of Avro types are not part of the document", "members called \"@\" are locator marks and not part of the document",
               "strings that look like numbers are quoted in YAML"]
FACTOR = {"quick": 3, "thorough": 8}

SYMS = ["x", "y", "input", "a1", "_z", "n", "yes", "no", "on", "off", "true1", "nan", "inf", "infinity", "Nan", "e", "E5", "k", "OFF", "null", "Null", "y_", "tally", "with_underscore", "X9"]
FNAMES = ["+", "-", "u.f", "u.g", "a.map", "m.exp", "map.add", "model.tree.simpleTree", "==", "!", "**", "&&", "%", "u.nan", "nan", "stat.test.kolmogorov", "x.y.z1"]
RNAMES = [x for x in FNAMES if x[0].isalpha()]
STRS = ["", "a", "yes", "null", "true", "~", "nan", "inf", "-inf", "Infinity", "a b", " lead", "trail ", "\u00e9\u65e5", "\U0001F600", "q\"uote", "s'q", "back\\slash", "new\nline", "tab\t", "# c", "a: b", "- x", "[1]", "{}", "&a", "*a",
        "!t", "%d", "@", "`", "|", ">", "?", ":", "int", "2001-01-01", "x.y", "<<", "=", "null ", "\u00a0", "a,b", "on", "Off", ".inf", "multi\n\nline\n", "1.2.3", "0o7", "0x1F", "12:30", "_1"]
PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "bytes"]


# ------------------------------------------------------------------ generated documents

class Gen(object):
    def __init__(self, d):
        self.d = d
        self.count = 0
        self.named = []
        self.declared = set()
        self.used = set()
        n = d.below(4)
        for i in range(n):
            ns = d.choice(["", "", "com.ns", "org"])
            self.named.append((ns, "T%d" % i, d.choice(["record", "record", "enum", "fixed"])))
        self.inside = 0

    def name(self):
        return self.d.choice(SYMS)

    def names(self, lo=1, hi=3):
        return self.d.sample(SYMS, self.d.int(lo, hi))

    def string(self):
        d = self.d
        if d.chance(1, 4):
            return d.str()
        return d.choice(STRS)

    def number(self):
        d = self.d
        k = d.below(6)
        if k < 3:
            return d.pfaint()
        if k == 3:
            return d.pfalong()
        v = d.pfadouble(special=False)
        return v

    def anyjson(self, depth=2):
        d = self.d
        k = d.below(9 if depth > 0 else 6)
        if k == 0:
            return None
        if k == 1:
            return d.bool()
        if k < 4:
            return self.number()
        if k < 6:
            return self.string()
        if k == 6:
            return [self.anyjson(depth - 1) for _ in range(d.below(4))]
        return {self.key(): self.anyjson(depth - 1) for _ in range(d.below(4))}

    def key(self):
        k = self.string()
        return k if k != "@" else "at"

    # types
    def type(self, depth=2, ns=""):
        d = self.d
        k = d.below(12)
        if k < 6 or depth <= 0:
            return d.choice(PRIMS)
        if k == 6:
            return {"type": "array", "items": self.type(depth - 1, ns)}
        if k == 7:
            return {"type": "map", "values": self.type(depth - 1, ns)}
        if k == 8:
            return d.sample(PRIMS, d.int(1, 3)) + ([{"type": d.choice(["array", "map"]), "items": "int", "values": "int"}] if d.chance(1, 4) else [])
        if k == 9:
            return {"type": d.choice(PRIMS)}
        ok = [t for t in self.named if not ns or t[0]]
        return self.namedtype(d.choice(ok), ns) if ok else d.choice(PRIMS)

    def namedtype(self, t, ns, force=False):
        d = self.d
        ns2, name, kind = t
        full = ns2 + "." + name if ns2 else name
        if full not in self.declared and (force or self.inside or d.bool()):
            self.declared.add(full)
            out = {"type": kind}
            if ns2 == ns and d.bool():
                out["name"] = name
            elif ns2 and d.bool():
                out["name"] = full
            else:
                out["name"] = name
                if ns2 or d.chance(1, 4):
                    out["namespace"] = ns2
            if kind == "enum":
                out["symbols"] = d.sample(["A", "B", "C", "nan", "yes"], d.int(1, 4))
            elif kind == "fixed":
                out["size"] = d.int(0, 20)
            else:
                out["fields"] = []
                self.inside += 1
                for f in d.sample(["a", "b", "c", "nan", "yes"], d.below(4)):
                    fd = {"name": f, "type": None}
                    if d.chance(1, 3):
                        fd["order"] = d.choice(["ascending", "descending", "ignore"])
                    if d.chance(1, 4):
                        t0, v = d.choice([("int", 3), ("string", "x"), (["null", "int"], None), ("null", None), ("double", 2.5), ("boolean", False), (["int", "null"], 0), ({"type": "array", "items": "int"}, []), ("string", "")])
                        fd["type"], fd["default"] = t0, v
                    else:
                        fd["type"] = self.type(1, ns2)
                    out["fields"].append(fd)
                self.inside -= 1
            return out
        self.used.add(t)
        return name if ns2 == ns and d.bool() else full

    # expressions
    def body(self, depth, field=False):
        d = self.d
        if d.chance(1, 3):
            e = self.expr(depth - 1)
            return [e] if isinstance(e, list) else e
        return [self.expr(depth - 1) for _ in range(d.int(1, 3))]

    def args(self, depth):
        d = self.d
        if d.chance(1, 4):
            e = self.arg(depth - 1)
            return [e] if isinstance(e, list) else e
        return [self.arg(depth - 1) for _ in range(d.below(4))]

    def arg(self, depth):
        d = self.d
        k = d.below(8)
        if k == 0:
            return {"params": [{x: self.type()} for x in self.names(0, 3)], "ret": self.type(), "do": self.body(depth)}
        if k == 1:
            return {"fcn": d.choice(RNAMES)}
        if k == 2:
            return {"fcn": d.choice(RNAMES), "fill": {x: self.arg(depth - 1) for x in self.names()}}
        return self.expr(depth)

    def block(self, depth):
        return {x: self.expr(depth - 1) for x in self.names()}

    def path(self, depth):
        return [self.expr(depth - 1) for _ in range(self.d.int(1, 3))]

    def expr(self, depth):
        d = self.d
        self.count += 1
        if depth <= 0 or self.count > 60:
            k = d.below(14)
        else:
            k = d.below(46)
        if k == 0:
            return None
        if k == 1:
            return d.bool()
        if k == 2:
            return self.number()
        if k == 3:
            return {d.choice(["int", "long", "float", "double"]): d.pfaint()}
        if k == 4:
            return {"long": d.pfalong()}
        if k == 5:
            return {d.choice(["float", "double"]): d.pfadouble(special=False)}
        if k == 6:
            return {"string": self.string()}
        if k == 7:
            return [self.string()]
        if k == 8:
            return {"base64": d.choice(["", "AA==", "/+8=", "aGVsbG8=", "AAECAw=="])}
        if k == 9:
            return {"type": self.type(), "value": self.anyjson()}
        if k == 10:
            return ".".join([self.name()] + [d.choice(["a", "0", "12", "key", "-1", "b c", "yes"]) for _ in range(d.int(1, 3))])
        if k < 14:
            return self.name()
        if k < 18:
            return {d.choice(FNAMES): self.args(depth)}
        if k == 18:
            return {"new": self.block(depth) if d.chance(5, 6) else {}, "type": self.type()}
        if k == 19:
            return {"new": [self.expr(depth - 1) for _ in range(d.below(3))], "type": self.type()}
        if k == 20:
            return {"do": self.body(depth)}
        if k == 21:
            return {d.choice(["let", "set"]): self.block(depth)}
        if k == 22:
            return {"attr": self.expr(depth - 1), "path": self.path(depth)}
        if k == 23:
            return {"attr": self.expr(depth - 1), "path": self.path(depth), "to": self.arg(depth - 1)}
        if k == 24:
            return dict({"cell": self.name()}, **({"path": self.path(depth)} if d.bool() else {}))
        if k == 25:
            return dict({"cell": self.name(), "to": self.arg(depth - 1)}, **({"path": self.path(depth)} if d.bool() else {}))
        if k == 26:
            return {"pool": self.name(), "path": self.path(depth)}
        if k == 27:
            return {"pool": self.name(), "path": self.path(depth), "to": self.arg(depth - 1), "init": self.expr(depth - 1)}
        if k == 28:
            return {"pool": self.name(), "del": self.expr(depth - 1)}
        if k == 29:
            return dict({"if": self.expr(depth - 1), "then": self.body(depth)}, **({"else": self.body(depth)} if d.bool() else {}))
        if k == 30:
            return dict({"cond": [{"if": self.expr(depth - 1), "then": self.body(depth)} for _ in range(d.int(1, 2))]}, **({"else": self.body(depth)} if d.bool() else {}))
        if k == 31:
            return {"while": self.expr(depth - 1), "do": self.body(depth)}
        if k == 32:
            return {"do": self.body(depth), "until": self.expr(depth - 1)}
        if k == 33:
            return {"for": self.block(depth), "while": self.expr(depth - 1), "step": self.block(depth), "do": self.body(depth)}
        if k == 34:
            return dict({"foreach": self.name(), "in": self.expr(depth - 1), "do": self.body(depth)}, **({"seq": d.bool()} if d.bool() else {}))
        if k == 35:
            return {"forkey": self.name(), "forval": self.name(), "in": self.expr(depth - 1), "do": self.body(depth)}
        if k == 36:
            return dict({"cast": self.expr(depth - 1), "cases": [{"as": self.type(), "named": self.name(), "do": self.body(depth)} for _ in range(d.int(1, 2))]}, **({"partial": d.bool()} if d.bool() else {}))
        if k == 37:
            return {"upcast": self.expr(depth - 1), "as": self.type()}
        if k == 38:
            return dict({"ifnotnull": self.block(depth), "then": self.body(depth)}, **({"else": self.body(depth)} if d.bool() else {}))
        if k == 39:
            return {"pack": [{d.choice(["int", "raw 3", "pad", "<double", "raw-null"]): self.expr(depth - 1)} for _ in range(d.int(1, 3))]}
        if k == 40:
            return dict({"unpack": self.expr(depth - 1), "format": [{x: d.choice(["int", "raw 3", ">long", "unsigned byte"])} for x in self.names()], "then": self.body(depth)}, **({"else": self.body(depth)} if d.bool() else {}))
        if k == 41:
            return {"doc": self.string()}
        if k == 42:
            return dict({"error": self.string()}, **({"code": -1 - d.below(2**31)} if d.bool() else {}))
        if k == 43:
            return dict({"try": self.body(depth)}, **({"filter": [d.choice([self.string(), d.pfaint()]) for _ in range(d.below(3))]} if d.bool() else {}))
        if k == 44:
            return dict({"log": self.body(depth)}, **({"namespace": self.string()} if d.bool() else {}))
        return {"call": self.expr(depth - 1), "args": [self.expr(depth - 1) for _ in range(d.below(3))]}

    def doc(self):
        d = self.d
        doc = {"input": self.type(), "output": self.type(), "action": self.body(4)}
        if d.chance(3, 4):
            doc["name"] = d.choice(["Engine_1", "nan", "Yes", "N"])
        k = d.below(4)
        if k == 1:
            doc["method"] = "map"
        elif k == 2:
            doc["method"] = "emit"
        elif k == 3:
            doc["method"] = "fold"
            doc["zero"] = self.anyjson()
            doc["merge"] = self.body(3)
        if d.bool():
            doc["begin"] = self.body(3)
        if d.bool():
            doc["end"] = self.body(3)
        if d.bool():
            doc["fcns"] = {x: {"params": [{y: self.type()} for y in self.names(0, 3)], "ret": self.type(), "do": self.body(3)} for x in d.sample(["f", "g.h", "nan", "yes", "a.b.c"], d.int(1, 2))}
        if d.bool():
            doc["cells"] = {x: self.state(True) for x in self.names()}
        if d.bool():
            doc["pools"] = {x: self.state(False) for x in self.names()}
        if d.chance(1, 3):
            doc["randseed"] = d.pfalong()
        if d.chance(1, 3):
            doc["doc"] = self.string()
        if d.chance(1, 3):
            doc["version"] = d.pfaint()
        if d.chance(1, 3):
            doc["metadata"] = {self.key(): self.string() for _ in range(d.below(3))}
        if d.chance(1, 3):
            doc["options"] = {self.key(): self.anyjson() for _ in range(d.below(3))}
        # definitions of the types that are so far only mentioned
        extra = []
        while True:
            todo = [t for t in sorted(self.used) if (t[0] + "." + t[1] if t[0] else t[1]) not in self.declared]
            if not todo:
                break
            extra.append(self.namedtype(todo[0], "", force=True))
        for i, t in enumerate(extra):
            doc.setdefault("cells", {})["decl%d" % i] = {"type": t, "init": None}
        # the order of members carries no information
        return self.shuffled(doc) if d.bool() else doc

    def shuffled(self, x):
        if isinstance(x, dict):
            return {k: self.shuffled(x[k]) for k in self.d.shuffle(list(x))}
        if isinstance(x, list):
            return [self.shuffled(y) for y in x]
        return x

    def state(self, cell):
        d = self.d
        out = {"type": self.type()}
        if cell:
            out["init"] = self.anyjson()
        elif d.bool():
            out["init"] = {self.key(): self.anyjson() for _ in range(d.below(3))}
        k = d.below(5)
        if k == 1:
            out["shared"] = True
        elif k == 2:
            out["rollback"] = True
        elif k == 3:
            out["shared"], out["rollback"] = d.choice([(False, False), (False, True), (True, False)])
        if d.chance(1, 4):
            out["source"] = "embedded"
        return out


# ------------------------------------------------------------------ normal form (independent of titus)

class Normal(object):
    def __init__(self):
        self.table = {}

    def type(self, j, ns=""):
        if isinstance(j, str):
            if j in PRIMS or "." in j or not ns:
                return j
            return ns + "." + j
        if isinstance(j, list):
            return ["union"] + [self.type(x, ns) for x in j]
        k = j["type"]
        if k == "array":
            return {"array": self.type(j["items"], ns)}
        if k == "map":
            return {"map": self.type(j["values"], ns)}
        if k in ("record", "enum", "fixed"):
            name, ns2 = j["name"], j.get("namespace") or ns
            if "." in name:
                ns2, name = name.rsplit(".", 1)
            full = ns2 + "." + name if ns2 else name
            if k == "enum":
                it = ["enum"] + list(j["symbols"])
            elif k == "fixed":
                it = ["fixed", j["size"]]
            else:
                it = ["record"] + [[f["name"], self.type(f["type"], ns2), f.get("order", "ascending"), ["default", f["default"]] if "default" in f else None] for f in j["fields"]]
            if full in self.table:
                raise Violation("the type %s is declared twice" % full)
            self.table[full] = it
            return full
        return self.type(k, ns)

    def body(self, x):
        return [self.expr(e) for e in x] if isinstance(x, list) else [self.expr(x)]

    def expr(self, e):
        if e is None or isinstance(e, bool):
            return e
        if isinstance(e, int):
            return {"int": e} if -2**31 <= e < 2**31 else {"long": e}
        if isinstance(e, float):
            return {"double": e}
        if isinstance(e, list):
            return {"string": e[0]}
        if isinstance(e, str):
            w = e.split(".")
            if len(w) == 1:
                return e
            return {"attr": w[0], "path": [{"int": int(x)} if re.match("^-?[0-9]+$", x) else {"string": x} for x in w[1:]]}
        if set(e) <= {"int", "long", "float", "double"}:
            (k, v), = e.items()
            return {k: float(v) if k in ("float", "double") else v}
        out = {}
        if "foreach" in e:
            out["seq"] = True
        if "cast" in e:
            out["partial"] = False
        if "cell" in e:
            out["path"] = []
        special = set(e) & {"string", "base64", "type", "let", "set", "for", "while", "until", "do", "if", "cond", "foreach", "forkey", "cast", "upcast", "ifnotnull", "pack", "unpack", "doc", "error", "try", "log",
                            "params", "fcn", "call", "attr", "cell", "pool", "new"}
        if not special:
            (k, v), = e.items()
            return {"apply": k, "args": self.body(v)}
        for k, v in e.items():
            if k in ("do", "then", "else", "log", "try", "path", "args", "cond"):
                out[k] = self.body(v)
            elif k in ("let", "set", "for", "step", "ifnotnull", "fill") or k == "new" and isinstance(v, dict):
                out[k] = {a: self.expr(b) for a, b in v.items()}
            elif k == "new":
                out[k] = self.body(v)
            elif k in ("type", "ret", "as"):
                out[k] = self.type(v)
            elif k == "cases":
                out[k] = [{"as": self.type(c["as"]), "named": c["named"], "do": self.body(c["do"])} for c in v]
            elif k == "params":
                out[k] = [{a: self.type(b) for a, b in p.items()} for p in v]
            elif k == "pack":
                out[k] = [{a: self.expr(b) for a, b in p.items()} for p in v]
            elif k in ("attr", "if", "while", "until", "unpack", "del", "in", "cast", "upcast", "init", "call", "to"):
                out[k] = self.expr(v)
            elif k == "base64":
                out[k] = base64.b64decode(v).hex()
            else:
                out[k] = v
        return out

    def doc(self, doc):
        out = {"method": "map", "begin": [], "end": [], "fcns": {}, "cells": {}, "pools": {}, "metadata": {}, "options": {}, "merge": None}
        for k, v in doc.items():
            if k in ("input", "output"):
                v = self.type(v)
            elif k in ("action", "begin", "end", "merge"):
                v = self.body(v)
            elif k == "fcns":
                v = {a: self.expr(b) for a, b in v.items()}
            elif k in ("cells", "pools"):
                new = {}
                for n, s in v.items():
                    c = {"init": {}, "shared": False, "rollback": False}
                    c.update(s)
                    c["type"] = self.type(c["type"])
                    c.pop("source", None)
                    new[n] = c
                v = new
            out[k] = v
        return out


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "@"}
    return [strip(y) for y in x] if isinstance(x, list) else x


def normal(doc):
    n = Normal()
    out = n.doc(strip(doc))
    out["(types)"] = n.table
    return canon(out)


def canon(x):
    """distinguish 1, 1.0 and true"""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x if x is None or isinstance(x, str) else (type(x).__name__, repr(x))


def firstdiff(a, b, where="document"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s: %s is only %s" % (where, k, "written" if k in b else "in the original (%s)" % show(a[k]))
            r = firstdiff(a[k], b[k], where + "." + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a) or i >= len(b):
                return "%s: different lengths" % where
            r = firstdiff(a[i], b[i], where + "[%d]" % i)
            if r:
                return r
        return None
    return None if a == b else "%s: %s became %s" % (where, show(a), show(b))


def check_same(want, got, what, noname):
    if noname:
        got = dict(got)
        got.pop("name", None)
    r = firstdiff(want, normal(got))
    if r:
        raise Violation("%s: %s" % (what, r))


def marks(d, x):
    """add locator marks at random objects"""
    if isinstance(x, dict):
        out = {k: marks(d, v) for k, v in x.items()}
        if d.chance(1, 3):
            out["@"] = "line %d" % d.below(99)
        return out
    if isinstance(x, list):
        return [marks(d, y) for y in x]
    return x


def hasbad(x, pred):
    if isinstance(x, dict):
        return any(pred(k) or hasbad(v, pred) for k, v in x.items())
    if isinstance(x, list):
        return any(hasbad(v, pred) for v in x)
    return isinstance(x, str) and pred(x)


NUMBERLIKE = re.compile(r"^\s*[-+]?(\d[\d_]*\.?[\d_]*|\.\d+)([eE][-+]?\d+)?\s*$")


class NoAlias(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def share(x, memo):
    """the same document with equal parts being one object, which PyYAML writes as anchors and aliases"""
    if isinstance(x, dict):
        x = {k: share(v, memo) for k, v in x.items()}
    elif isinstance(x, list):
        x = [share(v, memo) for v in x]
    else:
        return x
    return memo.setdefault(repr(canon(x)), x)


def toyaml(d, doc):
    k = d.below(4)
    if k == 0:
        return json.dumps(doc, ensure_ascii=False) if not hasbad(doc, lambda s: not s.isprintable()) else json.dumps(doc)
    kw = {"default_flow_style": d.choice([True, False, None]), "allow_unicode": d.bool(), "indent": d.choice([2, 4]), "width": d.choice([40, 80, 1000])}
    if k == 3:
        doc = share(doc, {})
    return yaml.dump(doc, Dumper=NoAlias if k < 3 else yaml.SafeDumper, **kw)


def documents(d):
    g = Gen(d)
    doc = g.doc()
    d.note(doc)
    noname = "name" not in doc
    want = normal(doc)
    text = json.dumps(doc)
    d.sut()
    ast = jsonToAst(text)
    parsed = json.loads(text)
    ast2 = jsonToAst(parsed)
    if parsed != json.loads(text):
        raise Violation("reading changed the parsed JSON")
    out = ast.toJson()
    check_same(want, json.loads(out), "written back as JSON", noname)
    check_same(want, ast2.jsonNode(False, set()), "read from parsed JSON and written back", noname)
    if ast.toJson() != out:
        raise Violation("writing the document twice gives different results")
    again = jsonToAst(out)
    if not again == ast or again != ast:
        raise Violation("the re-read document does not equal the original: %s" % text)
    if again.toJson() != out:
        check_same(normal(json.loads(out)), json.loads(again.toJson()), "written, read and written again", False)
    marked = jsonToAst(marks(d, parsed))
    check_same(want, marked.jsonNode(False, set()), "read with locator marks and written back without", noname)
    lines = json.loads(marked.toJson(lineNumbers=True))
    re2 = jsonToAst(lines)
    check_same(want, re2.jsonNode(False, set()), "written with line numbers, read and written back", noname)
    re2.name = ast.name
    if not re2 == ast:
        raise Violation("the document written with line numbers and read again does not equal the original: %s" % text)

    class Nothing(object):
        def isDefinedAt(self, ast):
            return False
    rep = ast.replace(Nothing())
    check_same(want, rep.jsonNode(False, set()), "copied by replace", noname)
    # one change anywhere
    for _ in range(2):
        new = mutate(d, parsed)
        try:
            w2 = normal(new)
        except (Violation, Exception):
            continue
        if w2 == want:
            continue
        try:
            other = jsonToAst(copy.deepcopy(new))
        except Exception:
            continue
        if noname:
            other.name = ast.name
        if other == ast:
            raise Violation("two different documents count as equal:\n%s\n%s\n%s" % (firstdiff(want, w2), text, json.dumps(new)))
        d.label("unequal")
    # YAML
    if not hasbad(doc, lambda s: NUMBERLIKE.match(s) is not None or "\ud800" <= s[:1] <= "\udfff"):
        y = toyaml(d, doc)
        try:
            back = yaml.load(y, Loader=yaml.SafeLoader)
        except Exception:
            back = None
        if back is not None and canon(back) == canon(json.loads(text)):
            try:
                yast = yamlToAst(y)
            except Exception as err:
                raise Violation("the YAML form is refused with %s: %s\n%s" % (type(err).__name__, err, y))
            check_same(want, yast.jsonNode(False, set()), "read from YAML and written back:\n%s" % y, noname)
            d.label("yaml")
    if g.count >= 10:
        d.nontrivial(text)


def mutate(d, doc):
    new = copy.deepcopy(doc)
    spots = []

    def walk(x):
        if isinstance(x, dict):
            for k in x:
                spots.append((x, k))
                walk(x[k])
        elif isinstance(x, list):
            for i in range(len(x)):
                spots.append((x, i))
                walk(x[i])
    walk(new)
    x, k = d.choice(spots)
    v = x[k]
    if isinstance(v, bool):
        x[k] = not v
    elif isinstance(v, (int, float)):
        x[k] = v + 1
    elif v is None:
        x[k] = 0
    elif isinstance(v, str):
        x[k] = d.choice(["other", v + "x", "int" if v != "int" else "string", "y"])
    elif isinstance(v, list):
        c = d.below(3)
        if c == 0 and len(v) > 1:
            v.reverse()
        elif c == 1 and v:
            v.pop()
        else:
            v.append(copy.deepcopy(v[0]) if v else "x")
    else:
        ks = sorted(v)
        if ks and d.bool():
            del v[d.choice(ks)]
        elif ks:
            kk = d.choice(ks)
            v[kk + "x"] = v.pop(kk)
        else:
            v["x"] = "x"
    return new


def behave(d):
    p = Program(d, d.choice(["map", "emit", "fold"]))
    d.note(p.doc)
    doc = dict({"name": "TheEngine"}, **p.doc)
    inputs = [p.gen_input() for _ in range(d.int(1, 3))]
    # only histories that the reference interpreter finishes
    ref = RefEngine(p, doc["name"])
    for f, a in [(ref.begin, ())] + [(ref.action, (x,)) for x in inputs] + [(ref.end, ())]:
        refoutcome(f, *a)
    d.sut()
    text = json.dumps(doc)
    ast = jsonToAst(text)
    es = [compile_outcome(doc)]
    es.append(compile_outcome(json.loads(ast.toJson())))
    if es[0][0] == "ok":
        es.append(compile_outcome(json.loads(es[0][1].config.toJson())))
    # YAML: member order is part of how programs run only where it is unspecified
    y = yaml.dump(doc, Dumper=NoAlias, sort_keys=False, default_flow_style=d.bool())
    if canon(yaml.load(y, Loader=yaml.SafeLoader)) == canon(json.loads(text)) and not hasbad(doc, lambda s: NUMBERLIKE.match(s) is not None):
        try:
            es.append(("ok", PFAEngine.fromYaml(y)[0]))
        except Exception as err:
            es.append((type(err).__name__, err))
    if any(k != es[0][0] for k, _ in es):
        raise Violation("the document is %s, but re-read %s: %s" % (es[0][0], [k for k, _ in es], text))
    if es[0][0] != "ok":
        raise Discard()
    es = [e for _, e in es]
    logs = [[] for _ in es]
    for e, l in zip(es, logs):
        e.log = lambda m, ns, l=l: l.append((repr(m), ns))
        if p.method == "emit":
            e.emit = lambda x, l=l: l.append(repr(x))

    def both(f):
        rs = []
        for e in es:
            rs.append(tuple(x if isinstance(x, str) else repr(x) for x in outcome(f, e)))
        if any(r != rs[0] for r in rs) or any(l != logs[0] for l in logs):
            raise Violation("re-read documents behave differently: %s\n%s" % (show(rs), text))
        snaps = []
        for e in es:
            snaps.append(repr([sorted((n, repr(c.value)) for n, c in e.cells.items()), sorted((n, sorted((k, repr(v)) for k, v in c.value.items())) for n, c in e.pools.items())]))
        if any(s != snaps[0] for s in snaps):
            raise Violation("re-read documents keep different cells and pools: %s\n%s" % (show(snaps), text))
        return rs[0][0]
    ok = both(lambda e: e.begin()) and 0
    for x in inputs:
        xi = avt.toinput(x, p.intype, p.env)
        ok += both(lambda e: e.action(copy.deepcopy(xi))) == "ok"
    both(lambda e: e.end())
    if ok:
        d.nontrivial(text)


SUBS = [Sub("documents", documents, 500, 12000), Sub("behave", behave, 200, 5000)]
