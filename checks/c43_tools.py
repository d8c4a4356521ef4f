"""C43: producer helpers: expressions, transformations and JSON surgery."""
import copy
import io
import json
import math
import re

import numpy

from pbt import Discard, Violation, show, same, close
from runner import Sub

import titus.producer.tools as t
from titus.datatype import AvroArray, AvroDouble, AvroMap, jsonNodeToAvroType
from titus.errors import PFARuntimeException, PFAUserException
from titus.genpy import PFAEngine
from titus.prettypfa import ppfa
from titus.producer import expression
from titus.producer.transformation import Transformation

RULE = ("generated Python formulas and programs (typed int, double and boolean expressions with every operator, chained comparisons, conditional expressions, subscripts, cells, pools, substitutions; assignments, branches, loops, "
        "functions, raise and print) run as Python and as PFA on generated data; generated PrettyPFA formulas applied by a Transformation to records, dicts and tables of NumPy data and by a PFA engine to each row; generated JSON "
        "trees and patterns searched and edited and compared with a naive search; non-trivial when there are at least three operators, or at least one match; distinct = distinct formulas, programs, or pattern and tree")
ASSUMPTIONS = ["formulas that fail in Python (division by zero, domain errors) or leave the range of int are not compared", "// is the integer division of PFA, which truncates: generated for operands that are not negative",
               "edits with a pattern are generated for matches that do not contain each other", "a dotted or numeric key cannot be written in a casual index string"]
FACTOR = {"quick": 1, "thorough": 1}


# ------------------------------------------------------------ Python formulas

class Rec(dict):
    def __getattr__(self, k):
        return self[k]


class Seq(list):
    def __getitem__(self, i):
        if isinstance(i, bool) or not isinstance(i, int) or i < 0:
            raise IndexError(i)
        return list.__getitem__(self, i)


class Boom(Exception):
    pass


class NS(object):
    pass


def hook(x):
    if isinstance(x, dict):
        return Rec((k, hook(v)) for k, v in x.items())
    if isinstance(x, list):
        return Seq(hook(v) for v in x)
    return x


INTMAX = 2**31 - 1
WORDS = {"Plus": ("nn", "n", lambda x, y: x + y), "Minus": ("nn", "n", lambda x, y: x - y), "Times": ("nn", "n", lambda x, y: x * y), "Divide": ("nn", "d", lambda x, y: x / float(y)),
         "FloorDivide": ("ii", "i", lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)), "Negative": ("n", "n", lambda x: -x), "Modulo": ("nn", "n", lambda x, y: x % y),
         "Remainder": ("nn", "n", lambda x, y: type(x % y)(math.fmod(x, y))), "Equal": ("nn", "b", lambda x, y: x == y), "GreaterOrEqual": ("nn", "b", lambda x, y: x >= y),
         "GreaterThan": ("nn", "b", lambda x, y: x > y), "NotEqual": ("nn", "b", lambda x, y: x != y), "LessThan": ("nn", "b", lambda x, y: x < y), "LessOrEqual": ("nn", "b", lambda x, y: x <= y),
         "Max": ("nn", "n", max), "Min": ("nn", "n", min), "max": ("nn", "n", max), "min": ("nn", "n", min), "And": ("bb", "b", lambda x, y: x and y), "Or": ("bb", "b", lambda x, y: x or y),
         "XOr": ("bb", "b", lambda x, y: x != y), "Not": ("b", "b", lambda x: not x), "BitwiseAnd": ("ii", "i", lambda x, y: x & y), "BitwiseOr": ("ii", "i", lambda x, y: x | y),
         "BitwiseXOr": ("ii", "i", lambda x, y: x ^ y), "BitwiseNot": ("i", "i", lambda x: ~x), "Comparison": ("nn", "i", lambda x, y: (x > y) - (x < y))}
MATH = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "sqrt": math.sqrt, "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "atan2": math.atan2, "hypot": math.hypot}


class Formula(object):
    """typed Python source; level = how tight the outermost operator binds"""

    def __init__(self, d, env, subs, fcns=()):
        self.d, self.env, self.subs, self.fcns = d, env, subs, fcns
        self.count = 0
        self.depth = 0

    def s(self):
        return self.d.choice([" ", " ", "", "  "])

    def wrap(self, x, level):
        t, l = x
        return t if l >= level and not self.d.chance(1, 12) else "(" + t + ")"

    def atoms(self, t):
        return [k for k, v in self.env.items() if v == t]

    def leaf(self, t):
        d = self.d
        xs = self.atoms(t)
        if xs and d.chance(3, 4):
            return d.choice(xs), 13
        if t == "i":
            return str(d.int(0, 9)), 13
        if t == "d":
            return repr(d.choice([0.0, 0.5, 1.0, 1.25, 2.0, 3.5, 10.0, 0.1])), 13
        return d.choice(["True", "False"]), 13

    def num(self):
        return self.d.choice("iid")

    def gen(self, t):
        """text, level"""
        d = self.d
        if self.depth > 4 or not d.chance(3, 4):
            return self.leaf(t)
        self.depth += 1
        self.count += 1
        try:
            return self.gen0(t)
        finally:
            self.depth -= 1

    def bin(self, op, a, b, level):
        d = self.d
        return self.wrap(self.gen(a), level) + self.s() + op + self.s() + self.wrap(self.gen(b), level + 1), level

    def gen0(self, t):
        d = self.d
        k = d.below(14)
        if k == 0:
            # (the condition of a conditional expression binds tighter than itself)
            return self.wrap(self.gen(t), 2) + " if " + self.wrap(self.gen("b"), 2) + " else " + self.wrap(self.gen(t), 1), 1
        if k == 1:
            names = [n for n, (a, r, f) in WORDS.items() if r == t or r == "n" and t in "id"]
            n = d.choice(names)
            a, r, f = WORDS[n]
            if r == "n":
                args = ["i"] * len(a) if t == "i" else [self.num() for _ in a]
                if t == "d" and "d" not in args:
                    args[0] = "d"
            else:
                args = [self.num() if x == "n" else x for x in a]
            return n + "(" + (", ").join(self.gen(x)[0] for x in args) + ")", 13
        if k == 2:
            return "(" + self.gen(t)[0] + ")", 13
        fs = [f for f in self.fcns if f[2] == t]
        if k == 3 and fs:
            n, ps, r = d.choice(fs)
            return "u." + n + "(" + ", ".join(self.gen(x)[0] for x in ps) + ")", 13
        if t == "b":
            if k < 6:
                return self.bin(d.choice(["and", "and"]), "b", "b", 4) if False else (" and ".join(self.wrap(self.gen("b"), 5 if i else 4) for i in range(d.int(2, 3))), 4)
            if k < 8:
                return " or ".join(self.wrap(self.gen("b"), 4 if i else 3) for i in range(d.int(2, 3))), 3
            if k < 10:
                return "not " + self.wrap(self.gen("b"), 5), 5
            n = d.weighted([(4, 1), (2, 2), (1, 3)])
            out = self.wrap(self.gen(self.num()), 7)
            for _ in range(n):
                out += self.s() + d.choice(["<", "<=", ">", ">=", "==", "!="]) + self.s() + self.wrap(self.gen(self.num()), 7)
            return out, 6
        if t == "i":
            if k < 7:
                return self.bin(d.choice("+-"), "i", "i", 10)
            if k == 7:
                return self.bin("*", "i", "i", 11)
            if k == 8:
                if d.bool():
                    return "m.abs(" + self.gen("i")[0] + ")" + self.s() + "//" + self.s() + "m.abs(" + self.gen("i")[0] + ")", 11
                return self.bin("%", "i", "i", 11)
            if k == 9:
                op, l = d.choice([("|", 7), ("^", 8), ("&", 9)])
                return self.bin(op, "i", "i", l)
            if k == 10:
                return d.choice("-~") + self.wrap(self.gen("i"), 12), 12
            if k == 11:
                return self.wrap(self.gen("i"), 13) + self.s() + "**" + self.s() + str(d.int(0, 3)), 12.5
            return self.bin("+", "i", "i", 10)
        if k < 7:
            return self.bin(d.choice("+-"), *d.choice([("d", "d"), ("i", "d"), ("d", "i")]), 10)
        if k == 7:
            return self.bin("*", *d.choice([("d", "d"), ("i", "d"), ("d", "i")]), 11)
        if k == 8:
            return self.bin("/", self.num(), self.num(), 11)
        if k == 9:
            return self.bin("%", *d.choice([("d", "d"), ("i", "d"), ("d", "i")]), 11)
        if k == 10:
            return "-" + self.wrap(self.gen("d"), 12), 12
        if k == 11:
            return self.wrap(self.gen("d"), 13) + self.s() + "**" + self.s() + self.wrap(self.gen(self.num()), 12), 12.5
        n = d.choice(sorted(MATH) + ["pi"])
        if n == "pi":
            return "m.pi()", 13
        return "m." + n + "(" + ", ".join(self.gen(self.num())[0] for _ in range(2 if n in ("atan2", "hypot") else 1)) + ")", 13


def namespace(logs):
    ns = dict((k, f) for k, (a, r, f) in WORDS.items())
    m = NS()
    for k, f in MATH.items():
        setattr(m, k, f)
    m.abs = abs
    m.pi = lambda: math.pi
    ns["m"] = m
    ns["Boom"] = Boom
    ns["print"] = lambda *a: logs.append(list(a))
    ns["__builtins__"] = {"True": True, "False": False, "None": None}
    return ns


RECORD = {"type": "record", "name": "In", "fields": [
    {"name": "i0", "type": "int"}, {"name": "i1", "type": "int"}, {"name": "d0", "type": "double"}, {"name": "d1", "type": "double"}, {"name": "b0", "type": "boolean"},
    {"name": "xs", "type": {"type": "array", "items": "double"}}, {"name": "ms", "type": {"type": "map", "values": "int"}},
    {"name": "rs", "type": {"type": "array", "items": {"type": "record", "name": "Point", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": {"type": "array", "items": "double"}}]}}}]}
PFATYPE = {"i": "int", "d": "double", "b": "boolean"}


def datum(d):
    return {"i0": d.int(-9, 9), "i1": d.int(-9, 9), "d0": d.choice([0.0, 1.0, -1.0, 0.5, 2.25, -3.75, d.finite()]), "d1": d.choice([0.0, 1.0, -2.0, d.finite()]), "b0": d.bool(),
            "xs": d.list(lambda: d.choice([0.0, 1.0, -2.5, d.finite()]), 1, 4), "ms": {k: d.int(-5, 5) for k in d.sample(["a", "b", "c"], d.int(0, 3))},
            "rs": [{"x": d.int(-5, 5), "y": d.list(lambda: d.choice([0.5, 4.0]), 1, 3)} for _ in range(d.int(1, 3))]}


CELLS = {"c": {"type": {"type": "record", "name": "Conf", "fields": [{"name": "k", "type": "int"}, {"name": "w", "type": {"type": "array", "items": "double"}}]}, "init": {"k": 4, "w": [1.5, -2.0, 0.25]}},
         "scale": {"type": "double", "init": 2.5}}
POOLS = {"p": {"type": {"type": "map", "values": "int"}, "init": {"one": {"a": 1, "b": 11}, "two": {"a": 2, "b": 22}}}}
ENV = {"input.i0": "i", "input.i1": "i", "input.d0": "d", "input.d1": "d", "input.b0": "b", "input.xs[0]": "d", "input[\"i0\"]": "i", "input.rs[0].x": "i", "input.rs[0].y[0]": "d", "input[\"rs\"][0][\"x\"]": "i",
       "c.k": "i", "c.w[1]": "d", "c[\"w\"][2]": "d", "scale": "d", "p[\"one\"].a": "i", "p.two[\"b\"]": "i", "input.xs[c.k - 4]": "d"}


def dosubs(d, env):
    """identifiers that stand for PFA expressions, and their values as Python text"""
    out = {}
    for n, pf, py, ty in [("SUM", {"+": ["input.i0", 1]}, "(input.i0 + 1)", "i"), ("HALF", {"double": 0.5}, "0.5", "d"), ("POS", {">": [{"attr": "input", "path": [["d0"]]}, 0]}, "(input.d0 > 0)", "b")]:
        if d.chance(1, 4):
            out[n] = (pf, py)
            env[n] = ty
    return out


def run(d, text, oracletext, subs, outtype, data, fcns, what):
    """the same text as Python and as PFA"""
    opts = d.choice([None, {"lineNumbers": False}, {"wantArray": True}, {"lineNumbers": False, "wantArray": True}])
    pfasubs = {k: copy.deepcopy(v[0]) for k, v in subs.items()}
    try:
        if d.bool():
            action = expression.pfa(text, pfasubs, symbols=["input"], cells=["c", "scale"], pools=["p"], options=opts)
        else:
            action = expression.pfa(text, symbols=["input"], cells=["c", "scale"], pools=["p"], options=opts, **pfasubs)
        pfafcns = {n: expression.fcn([{p: PFATYPE[x]} for p, x in ps], PFATYPE[r], body, pfasubs if d.bool() else dict(pfasubs), cells=["c", "scale"], pools=["p"], options=opts) for n, ps, r, body in fcns}
    except Exception as err:
        raise Violation("%s is refused by the producer (%s: %s):\n%s" % (what, type(err).__name__, err, text))
    if opts and not opts.get("lineNumbers", True) and '"@"' in json.dumps(action):
        raise Violation("line numbers without being asked for: %s" % show(action))
    doc = {"name": "E", "input": RECORD, "output": outtype, "action": action, "cells": copy.deepcopy(CELLS), "pools": copy.deepcopy(POOLS), "fcns": pfafcns}
    try:
        engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
    except Exception as err:
        raise Violation("the PFA of %s is refused (%s: %s):\n%s\n%s" % (what, type(err).__name__, err, text, json.dumps(action)))
    seen = []
    engine.log = lambda values, namespace: seen.append(list(values))
    compared = 0
    for x in data:
        logs = []
        ns = namespace(logs)
        ns["input"] = hook(x)
        ns["c"], ns["scale"], ns["p"] = hook(CELLS["c"]["init"]), CELLS["scale"]["init"], hook(POOLS["p"]["init"])
        u = NS()
        ns["u"] = u
        for n, ps, r, body in fcns:
            src = indent(body.split("\n"))
            src[-1] = "    return (" + src[-1].strip() + ")"
            exec("def f(" + ", ".join(p for p, _ in ps) + "):\n" + "\n".join(withsubs(s, subs) for s in src), ns)
            setattr(u, n, ns.pop("f"))
        del seen[:]
        src = oracletext.split("\n")
        try:
            exec("def action():\n" + "\n".join(withsubs(s, subs) for s in indent(src[:-1]) + ["    return (" + src[-1] + ")"]), ns)
            want = ns["action"]()
        except (ZeroDivisionError, OverflowError, ValueError, IndexError, KeyError):
            continue
        except TypeError as err:
            if "complex" in str(err):       # (a root of a negative number)
                continue
            raise
        except Boom as err:
            want = err
        if any(isinstance(y, complex) for y in [want] + sum(logs, [])):
            continue
        d.sut()
        try:
            got = engine.action(x)
        except PFAUserException as err:
            got = err
        except PFARuntimeException as err:
            if "overflow" in str(err):
                continue
            raise Violation("%s fails (%s) on %s, Python gives %s:\n%s" % (what, err, show(x), want, text))
        except Exception as err:
            raise Violation("%s crashes with %s (%s) on %s, Python gives %s:\n%s" % (what, type(err).__name__, err, show(x), want, text))
        if isinstance(want, Boom):
            if not isinstance(got, PFAUserException) or str(want) not in str(got):
                raise Violation("%s gives %s on %s, Python raises %s:\n%s" % (what, show(got), show(x), want, text))
        elif isinstance(got, Exception) or isinstance(want, bool) != isinstance(got, bool) or not isinstance(got, bool) and not close(float(want), float(got)):
            raise Violation("%s gives %s on %s, Python gives %s:\n%s" % (what, show(got), show(x), want, text))
        if not close(json.loads(json.dumps(logs)), json.loads(json.dumps(seen))):
            raise Violation("%s prints %s on %s, Python prints %s:\n%s" % (what, seen, show(x), logs, text))
        compared += 1
    return compared


def indent(lines):
    return ["    " + x for x in lines]


def withsubs(line, subs):
    for k, (pf, py) in subs.items():
        line = re.sub(r"\b%s\b" % k, lambda m: py, line)
    return line


def fcndefs(d, subs):
    """user functions: name, parameters, result, body"""
    out = []
    for i in range(d.below(3)):
        ps = [("q%d" % j, d.choice("idb")) for j in range(d.int(1, 3))]
        r = d.choice("idb")
        env = dict(ps)
        g = Formula(d, env, subs)
        lines = []
        if d.bool():
            n, ty = d.choice(ps)
            lines.append(n + " = " + g.gen(ty)[0])
        if d.bool():
            lines.append("t = " + g.gen(r)[0])
            env["t"] = r
        out.append(("f%d" % i, ps, r, "\n".join(lines + [g.gen(r)[0]])))
    return out


def formulas(d):
    env = dict(ENV)
    subs = dosubs(d, env)
    fcns = fcndefs(d, subs)
    g = Formula(d, env, subs, [(n, [x for _, x in ps], r) for n, ps, r, body in fcns])
    ty = d.choice("idb")
    text = g.gen(ty)[0]
    data = [datum(d) for _ in range(4)]
    d.note([text, {k: v[0] for k, v in subs.items()}, fcns])
    n = run(d, text, text, subs, PFATYPE[ty], data, fcns, "the formula")
    if n and g.count >= 3:
        d.nontrivial(text)
    if fcns:
        d.label("functions")


class Body(object):
    def __init__(self, d, g):
        self.d, self.g = d, g
        self.loops = 0
        self.lines = []         # (text, text for the oracle)
        self.n = 0

    def put(self, ind, text, oracle=None):
        self.lines.append(("    " * ind + text, "    " * ind + (text if oracle is None else oracle)))

    def new(self):
        self.n += 1
        return "v%d" % self.n

    def block(self, ind, env, depth):
        """statements in a scope of their own"""
        d, g = self.d, self.g
        outer, g.env = g.env, dict(env)
        for _ in range(d.int(1, 3)):
            self.statement(ind, depth)
        g.env = outer

    def settable(self):
        return [k for k in self.g.env if k.startswith("v")]

    def statement(self, ind, depth):
        d, g = self.d, self.g
        k = d.below(10 if depth < 2 else 5)
        vs = self.settable()
        if k in (0, 1) and vs or k == 2 and len(vs) > 1:
            if k == 2:
                a, b = d.sample(vs, 2)
                self.put(ind, "%s, %s = %s, %s" % (a, b, g.gen(g.env[a])[0], g.gen(g.env[b])[0]))
            else:
                a = d.choice(vs)
                self.put(ind, "%s = %s" % (a, g.gen(g.env[a])[0]))
        elif k == 3:
            ts = [g.gen(d.choice("idb"))[0] for _ in range(d.int(1, 2))]
            self.put(ind, "print(%s)" % ", ".join(ts))
        elif k == 4 and depth:
            self.put(ind, *d.choice([("pass", "pass"), ('raise "boom"', 'raise Boom("boom")')] if d.bool() else [("pass", "pass")]))
        elif k < 5:
            if d.chance(1, 4):
                ta, tb = d.choice("idb"), d.choice("idb")
                ea, eb = g.gen(ta)[0], g.gen(tb)[0]
                a, b = self.new(), self.new()
                self.put(ind, "%s, %s = %s, %s" % (a, b, ea, eb))
                g.env[a], g.env[b] = ta, tb
            else:
                ty = d.choice("idb")
                e = g.gen(ty)[0]
                a = self.new()
                self.put(ind, "%s = %s" % (a, e))
                g.env[a] = ty
        elif k < 7:
            n = d.int(1, 3)
            for i in range(n):
                self.put(ind, ("elif " if i else "if ") + g.gen("b")[0] + ":")
                self.block(ind + 1, g.env, depth + 1)
            if d.bool():
                self.put(ind, "else:")
                self.block(ind + 1, g.env, depth + 1)
        elif k == 7:
            a = self.new()
            self.put(ind, "%s = 0" % a)
            self.put(ind, "while %s < %d and %s:" % (a, d.int(1, 3), g.wrap(g.gen("b"), 5)))
            self.block(ind + 1, g.env, depth + 1)       # (the counter is not among what the body may change)
            self.put(ind + 1, "%s = %s + 1" % (a, a))
        elif k == 8:
            e = self.new().replace("v", "e")
            self.put(ind, "for %s in input.xs:" % e)
            self.block(ind + 1, dict(g.env, **{e: "d"}), depth + 1)
        else:
            e = self.new().replace("v", "e")
            self.put(ind, "for key%s, %s in input.ms:" % (e, e), "for key%s, %s in input.ms.items():" % (e, e))
            self.block(ind + 1, dict(g.env, **{e: "i"}), depth + 1)


def statements(d):
    env = dict(ENV)
    subs = dosubs(d, env)
    fcns = fcndefs(d, subs)
    g = Formula(d, env, subs, [(n, [x for _, x in ps], r) for n, ps, r, body in fcns])
    b = Body(d, g)
    for _ in range(d.int(2, 5)):
        b.statement(0, 0)
    ty = d.choice("idb")
    last = g.gen(ty)[0]
    text = "\n".join([x for x, y in b.lines] + [last])
    oracle = "\n".join([y for x, y in b.lines] + [last])
    data = [datum(d) for _ in range(3)]
    d.note([text, {k: v[0] for k, v in subs.items()}, fcns])
    n = run(d, text, oracle, subs, PFATYPE[ty], data, fcns, "the program")
    if n and g.count >= 3:
        d.nontrivial(text)


BAD = ["x = y = 1", "import os", "lambda x: x", "[i for i in xs]", "x[1:2]", "x << 1", "x @ y", "def f(): pass", "x in y", "x is y", "x is None", "del x", "while x:\n    break", "for i in xs:\n    continue", "assert x", "with x: pass", "x.y = 3",
       "x[0] = 3", "f(x)(y)", "x += 1", "+x", "for i in xs:\n    x\nelse:\n    y", "while x:\n    x\nelse:\n    y", "try:\n    x\nexcept:\n    y", "yield x", "a, b = 1, 2, 3", "a, b = b", "raise", "x[1, 2]", "x[::2]", "global x", "class A: pass", "f(*x)",
       "f(**x)", "{x: 1}", "{**x}", "1 if x else (yield)", "f'{x}'", "3j", "x not in y", "(x := 3)", "...", "{1, 2}", "return 3"]


def refused(d):
    """what has no PFA equivalent is refused as such"""
    bad = d.choice(BAD)
    lines = bad.split("\n")
    pre = ["z = 1"] if d.bool() else []
    if d.bool():
        lines = ["if z > 0:"] + indent(lines) + (["else:", "    z"] if d.bool() else [])
    text = "\n".join(pre + lines)
    d.note(text)
    d.sut()
    try:
        got = expression.pfa(text)
    except expression.PythonToPfaException:
        d.nontrivial(text)
        return
    except SyntaxError:
        raise Discard()
    except Exception as err:
        raise Violation("Python without a PFA equivalent crashes the producer with %s (%s):\n%s" % (type(err).__name__, err, text))
    raise Violation("Python without a PFA equivalent is taken for %s:\n%s" % (json.dumps(got, default=repr), text))


# ------------------------------------------------------------ transformations

BIN = {"+": 10, "-": 10, "*": 11, "/": 11, "%": 11, "%%": 11, "**": 13}
ONE = ["m.abs", "m.acos", "m.asin", "m.atan", "m.ceil", "m.cos", "m.cosh", "m.exp", "m.expm1", "m.floor", "m.ln", "m.log10", "m.round", "m.rint", "m.sin", "m.sinh", "m.sqrt", "m.tan", "m.tanh", "-"]
TWO = ["m.atan2", "m.copysign", "m.hypot"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def tnum(d, fields, depth=0):
    k = d.below(12)
    if depth > 3 or k < 3:
        if fields and d.chance(4, 5):
            return d.choice(fields)
        return d.choice(["1", "2", "0.5", "3.25", "10", "double(2)", "m.pi()", "m.e()"])
    if k < 8:
        op = d.weighted([(3, "+"), (3, "-"), (3, "*"), (2, "/"), (2, "%"), (2, "%%"), (1, "**")])
        return "(%s %s %s)" % (tnum(d, fields, depth + 1), op, tnum(d, fields, depth + 1) if op != "**" else d.choice(["2.0", "0.5", "3.0", "-1.5"]))
    if k < 11:
        f = d.choice(ONE)
        if f in ("m.sqrt", "m.ln", "m.log10"):
            return "%s(m.abs(%s))" % (f, tnum(d, fields, depth + 1))
        if f in ("m.acos", "m.asin"):
            return "%s(m.sin(%s))" % (f, tnum(d, fields, depth + 1))
        return "%s(%s)" % (f, tnum(d, fields, depth + 1))
    return "%s(%s, %s)" % (d.choice(TWO), tnum(d, fields, 4), tnum(d, fields, 4))      # (not of results, whose zeros may have either sign)


def tbool(d, fields, depth=0):
    k = d.below(6)
    if k < 3 or depth > 2:
        return "(%s %s %s)" % (tnum(d, fields, depth + 1), d.choice(CMP), tnum(d, fields, depth + 1))
    if k == 3:
        return "(!%s)" % tbool(d, fields, depth + 1)
    return "(%s %s %s)" % (tbool(d, fields, depth + 1), d.choice(["&&", "||", "^^"]), tbool(d, fields, depth + 1))


def transformations(d):
    fields = d.sample(["x", "y", "zz", "w", "a1"], d.int(1, 3))
    ints = set(f for f in fields if d.chance(1, 4))
    n = d.int(1, 5)
    boolean = d.chance(1, 4)
    exprs = [(tbool if boolean else tnum)(d, fields) for _ in range(d.int(1, 3))]
    kind = d.choice(["array", "map", "record"])
    style = d.choice(["recarray", "dict", "table"])
    table = {f: [float(d.int(-5, 5)) if d.bool() else d.finite() for _ in range(n)] for f in fields}
    for f in ints:
        table[f] = [d.int(-5, 5) for _ in range(n)]
    if d.chance(1, 3):
        names = ["_%d" % i for i in range(len(exprs))]
        args, kw = exprs, {}
    else:
        names = d.sample(["p", "q", "r", "out"], len(exprs))
        args, kw = [], dict(zip(names, exprs))
    d.note([dict(zip(names, exprs)), style, kind, table])
    d.sut()
    what = "the transformation %s" % dict(zip(names, exprs))
    try:
        tr = Transformation(*args, **kw)
    except Exception as err:
        raise Violation("%s is refused (%s: %s)" % (what, type(err).__name__, err))
    used = sorted(f for f in fields if any(re.search(r"(?<![\w.])%s(?![\w.(])" % f, e) for e in exprs))
    if tr.fields != used:
        raise Violation("%s uses %s, not %s" % (what, used, tr.fields))
    order = names if args else sorted(names)
    columns = {f: numpy.array(table[f], dtype=int if f in ints else float) for f in fields}
    with numpy.errstate(all="ignore", invalid="raise", divide="raise"):
        try:
            if style == "dict":
                out = tr.transform(columns)
                cols = {k: out[k] for k in out}
            elif style == "recarray":
                out = tr.transform(numpy.core.records.fromarrays([columns[f] for f in fields], names=fields))
                if list(out.dtype.names) != list(order):
                    raise Violation("%s gives the fields %s" % (what, out.dtype.names))
                cols = {k: out[k] for k in order}
            else:
                names2 = fields if d.bool() else None
                m = numpy.array([[float(table[f][i]) for f in (fields if names2 else tr.fields)] for i in range(n)])
                if not names2 and not tr.fields:
                    raise Discard()
                out = tr.transform(m, names2)
                if out.shape != (n, len(order)):
                    raise Violation("%s gives a table of shape %s for %d rows" % (what, out.shape, n))
                cols = {k: out[:, i] for i, k in enumerate(order)}
        except (Violation, Discard):
            raise
        except FloatingPointError:
            raise Discard()     # (a value that is not a number, which PFA orders in its own way, or a division by a zero that may have either sign)
        except Exception as err:
            if "negative integer powers" in str(err) or "Integers to negative" in str(err):
                raise Discard()
            raise Violation("%s of %s data fails (%s: %s): %s" % (what, style, type(err).__name__, err, show(table)))
    if sorted(cols) != sorted(names):
        raise Violation("%s gives %s" % (what, sorted(cols)))
    for k in cols:
        if numpy.shape(cols[k]) != (n,):
            raise Violation("%s of %s data gives values of shape %s for %d rows" % (what, style, numpy.shape(cols[k]), n))

    # the same as PFA
    t0 = "boolean" if boolean else "double"
    subs = {f: d.choice(["input." + f, ppfa("input." + f), {"attr": "input", "path": [["%s" % f]]}]) for f in used}
    rec = {"type": "record", "name": "Out", "namespace": "com.x", "fields": [{"name": k, "type": t0} for k in names]} if d.bool() else {"type": "record", "name": "Out", "fields": [{"name": k, "type": t0} for k in names]}
    outtype = {"array": {"type": "array", "items": t0}, "map": {"type": "map", "values": t0}, "record": rec}[kind]
    given = d.bool()
    avro = jsonNodeToAvroType(outtype)
    form = d.below(3)
    try:
        if form == 0:
            new = tr.new(avro, subs) if given else tr.new(outtype if kind != "record" else avro, **subs)
            action = [new]
        elif form == 1:
            action = [tr.let(subs), {"type": outtype["name"] if kind == "record" and "namespace" not in outtype else "com.x.Out" if kind == "record" else outtype,
                                     "new": [k for k in order] if kind == "array" else {k: k for k in order}}]
        else:
            es = {k: tr.expr(k, subs) for k in order}
            action = [{"type": outtype["name"] if kind == "record" and "namespace" not in outtype else "com.x.Out" if kind == "record" else outtype,
                       "new": [es[k] for k in order] if kind == "array" else es}]
    except Exception as err:
        raise Violation("%s cannot be written as PFA (%s: %s)" % (what, type(err).__name__, err))
    doc = {"name": "E", "input": {"type": "record", "name": "Row", "fields": [{"name": f, "type": "int" if f in ints and style != "table" else "double"} for f in fields]}, "output": outtype, "action": action}
    try:
        engine, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
    except Exception as err:
        raise Violation("the PFA of %s is refused (%s: %s): %s" % (what, type(err).__name__, err, json.dumps(action)))
    good = 0
    for i in range(n):
        row = {f: table[f][i] if f in ints and style != "table" else float(table[f][i]) for f in fields}
        try:
            got = engine.action(row)
        except PFARuntimeException as err:
            continue        # (integer overflow or division by zero)
        for j, k in enumerate(order):
            g = got[j] if kind == "array" else got[k]
            w = cols[k][i]
            if boolean:
                ok = bool(w) == g
            else:
                ok = close(float(w), float(g), 1e-9, 1e-9) or not math.isfinite(w) and not math.isfinite(g)
            if not ok:
                raise Violation("%s gives %s for %s of %s, its PFA %s" % (what, w, k, show(row), g))
        good += 1
    if good and sum(e.count("(") for e in exprs) >= 3:
        d.nontrivial([exprs, style, kind])
    d.label(style)


# ------------------------------------------------------------ JSON surgery

KEYS = ["a", "b", "c", "@", "type"]


def tree(d, depth=0):
    k = d.below(9 if depth < 3 else 5)
    if k == 0:
        return d.choice([None, True, False])
    if k == 1:
        return d.int(-2, 3)
    if k == 2:
        return d.choice([0.5, 1.0, -2.5, 0.0])
    if k in (3, 4):
        return d.choice(["a", "ab", "input", "x1", "", "AB"])
    if k in (5, 6):
        return [tree(d, depth + 1) for _ in range(d.int(0, 3))]
    return {x: tree(d, depth + 1) for x in d.sample(KEYS, d.int(0, 3))}


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def subtrees(x, at=()):
    """children first, keys sorted"""
    if isinstance(x, dict):
        for k in sorted(x):
            for r in subtrees(x[k], at + (k,)):
                yield r
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for r in subtrees(v, at + (i,)):
                yield r
    yield at, x


def pattern(d, like, depth=0):
    """pattern, text, matches(x) -> None or (modified, groups)"""
    if like is not None and depth == 0 and d.chance(1, 4):
        return matching(d, d.choice([x for _, x in subtrees(like)]), [])
    k = d.below(14 if depth < 3 else 9)
    if k == 0:
        ts = d.choice([(), (dict,), (list,), (str,), (dict, list)])
        return t.Any(*ts), "Any(%s)" % ", ".join(x.__name__ for x in ts), lambda x: (x, {}) if not ts or isinstance(x, ts) else None
    if k in (1, 2):
        v, f, w = d.int(-2, 3), d.choice(["LT", "LE", "GT", "GE"]), None
        op = {"LT": lambda x: x < v, "LE": lambda x: x <= v, "GT": lambda x: x > v, "GE": lambda x: x >= v}[f]
        return getattr(t, f)(v), "%s(%r)" % (f, v), lambda x: (x, {}) if isnum(x) and op(x) else None
    if k == 3:
        c, e = d.int(-2, 3), d.choice([0.5, 1.0, 0.0])
        return t.Approx(c, e), "Approx(%r, %r)" % (c, e), lambda x: (x, {}) if isnum(x) and abs(x - c) <= e else None
    if k == 4:
        r, to, fl = d.choice([("a", None, None), ("a(b?)", "z\\1", None), ("A", None, "i"), ("x[0-9]$", "y", None), ("(in)put", "\\1", None), ("^.b$", None, "iu"), ("$", "e", None)])
        fs = re.I if fl and "i" in fl else 0
        return t.RegEx(r, to, fl), "RegEx(%r, %r, %r)" % (r, to, fl), lambda x: (x if to is None else re.sub(r, to, x, flags=fs), {}) if isinstance(x, str) and re.match(r, x, fs) else None
    if k < 9 or like is None:
        # something that is there
        v = d.choice([x for _, x in subtrees(like)]) if like is not None and d.chance(3, 4) else tree(d, 2)
        return literal(d, v, depth)
    if k == 9:
        ps = [pattern(d, like, depth + 1) for _ in range(d.int(0, 3))]

        def f(x):
            for p in ps:
                m = p[2](x)
                if m is not None:
                    return m
        return t.Or(*[p[0] for p in ps]), "Or(%s)" % ", ".join(p[1] for p in ps), f
    if k == 10:
        ps = [pattern(d, like, depth + 1) for _ in range(d.int(0, 3))]

        def f(x):
            m, gs = None, {}
            for p in ps:
                m = p[2](x)
                if m is None:
                    return None
                gs.update(m[1])
            return None if m is None else (m[0], gs)
        return t.And(*[p[0] for p in ps]), "And(%s)" % ", ".join(p[1] for p in ps), f
    if k == 11:
        n = d.choice(["g", "h"])
        p = pattern(d, like, depth + 1)

        def f(x):
            m = p[2](x)
            return None if m is None else (m[0], dict(m[1], **{n: m[0]}))
        return t.Group(**{n: p[0]}), "Group(%s=%s)" % (n, p[1]), f
    if k == 12:
        ks = d.sample([x for x in KEYS if x != "@"] + (["@"] if d.chance(1, 4) else []), d.int(0, 2))
        ps = {x: pattern(d, like, depth + 1) for x in ks}

        def f(x):
            if not isinstance(x, dict) or any(q != "@" and q not in x for q in ps):
                return None
            out, gs = {q: v for q, v in x.items() if q != "@"}, {}
            for q, p in ps.items():
                if q != "@":
                    m = p[2](x[q])
                    if m is None:
                        return None
                    out[q] = m[0]
                    gs.update(m[1])
            return out, gs
        return t.Min(**{q: p[0] for q, p in ps.items()}), "Min(%s)" % ", ".join("%s=%s" % (q, p[1]) for q, p in ps.items()), f
    ps = [pattern(d, like, depth + 1) for _ in range(d.int(0, 2))]
    c = d.choice(["Start", "End"])

    def f(x):
        if not isinstance(x, list) or len(x) < len(ps):
            return None
        out, gs = list(x), {}
        for i, p in enumerate(ps):
            j = i if c == "Start" else len(x) - len(ps) + i
            m = p[2](x[j])
            if m is None:
                return None
            out[j] = m[0]
            gs.update(m[1])
        return out, gs
    return getattr(t, c)(*[p[0] for p in ps]), "%s(%s)" % (c, ", ".join(p[1] for p in ps)), f


def matching(d, v, names):
    """a pattern that matches a value, with groups of different names (given in `names`) in several of its parts"""
    k = d.below(6)
    if isinstance(v, dict) and k < 5:
        keys = [x for x in v if x != "@"]
        small = k < 3
        if small:
            keys = d.sample(keys, d.int(0, len(keys)))
        ps = {x: matching(d, v[x], names) for x in keys}

        def f(x):
            if not isinstance(x, dict) or any(q not in x for q in ps) or not small and set(x) - {"@"} != set(ps):
                return None
            out, gs = {q: y for q, y in x.items() if q != "@"}, {}
            for q, p in ps.items():
                m = p[2](x[q])
                if m is None:
                    return None
                out[q] = m[0]
                gs.update(m[1])
            return out, gs
        text = ", ".join("%s=%s" % (q, p[1]) for q, p in ps.items())
        got = (t.Min(**{q: p[0] for q, p in ps.items()}), "Min(%s)" % text, f) if small else ({q: p[0] for q, p in ps.items()}, "{%s}" % text, f)
    elif isinstance(v, list) and k < 5:
        how = d.choice(["Start", "End", "list"])
        n = len(v) if how == "list" else d.int(0, len(v))
        ps = [matching(d, x, names) for x in (v[len(v) - n:] if how == "End" else v[:n])]

        def f(x):
            if not isinstance(x, list) or len(x) < n or how == "list" and len(x) != n:
                return None
            out, gs, at = list(x), {}, len(x) - n if how == "End" else 0
            for i, p in enumerate(ps):
                m = p[2](x[at + i])
                if m is None:
                    return None
                out[at + i] = m[0]
                gs.update(m[1])
            return out, gs
        text = ", ".join(p[1] for p in ps)
        got = ([p[0] for p in ps], "[%s]" % text, f) if how == "list" else (getattr(t, how)(*[p[0] for p in ps]), "%s(%s)" % (how, text), f)
    elif isinstance(v, str) and k < 2:
        got = t.RegEx("^(.?)(.*)$", "\\2\\1"), "RegEx('^(.?)(.*)$', '\\2\\1')", lambda x: (x[1:] + x[:1], {}) if isinstance(x, str) else None
    else:
        got = (t.Any(), "Any()", lambda x: (x, {})) if k < 5 else literal(d, v, 3)
    if d.chance(1, 2):
        name = "g%d" % len(names)
        names.append(name)
        inner = got[2]

        def h(x):
            m = inner(x)
            return None if m is None else (m[0], dict(m[1], **{name: m[0]}))
        got = (t.Group(**{name: got[0]}), "Group(%s=%s)" % (name, got[1]), h)
    return got


def literal(d, v, depth):
    """a JSON value as a pattern, with patterns in place of some of its parts"""
    if isinstance(v, dict):
        ps = {k: pattern(d, x, depth + 1) if d.chance(1, 4) else literal(d, x, depth) for k, x in v.items()}
        if "@" in ps and d.bool():
            del ps["@"]

        def f(x):
            if not isinstance(x, dict) or set(x) - {"@"} != set(ps) - {"@"}:
                return None
            out, gs = {}, {}
            for k, p in ps.items():
                if k != "@":
                    m = p[2](x[k])
                    if m is None:
                        return None
                    out[k] = m[0]
                    gs.update(m[1])
            return out, gs
        return {k: p[0] for k, p in ps.items()}, "{%s}" % ", ".join("%r: %s" % (k, p[1]) for k, p in ps.items()), f
    if isinstance(v, list):
        ps = [pattern(d, x, depth + 1) if d.chance(1, 4) else literal(d, x, depth) for x in v]

        def f(x):
            if not isinstance(x, list) or len(x) != len(ps):
                return None
            out, gs = [], {}
            for p, y in zip(ps, x):
                m = p[2](y)
                if m is None:
                    return None
                out.append(m[0])
                gs.update(m[1])
            return out, gs
        return [p[0] for p in ps], "[%s]" % ", ".join(p[1] for p in ps), f
    return v, repr(v), lambda x: (x, {}) if type(x) is type(v) and x == v or isnum(x) and isnum(v) and x == v else None


def jsame(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def nodots(x):
    if isinstance(x, dict):
        return {k: nodots(v) for k, v in x.items() if k != "@"}
    return [nodots(v) for v in x] if isinstance(x, list) else x


def searches(d):
    x = tree(d)
    p, text, f = pattern(d, x)
    keep = copy.deepcopy(x)
    d.note([text, x])
    d.sut()
    what = "%s in %s" % (text, json.dumps(x))
    try:
        found = list(t.search(p, x))
        want = [(at, y, f(y)) for at, y in subtrees(x) if f(y) is not None]
        if [at for at, m in found] != [at for at, y, m in want]:
            raise Violation("searching %s finds %s, not %s" % (what, [at for at, m in found], [at for at, y, m in want]))
        for (at, m), (_, y, (modified, groups)) in zip(found, want):
            if not jsame(nodots(m.original), nodots(y)):
                raise Violation("searching %s: the match at %s is %s, not %s" % (what, at, m.original, y))
            if not jsame(nodots(m.modified), nodots(modified)):
                raise Violation("searching %s: the match at %s becomes %s, not %s" % (what, at, m.modified, modified))
            if not jsame(nodots(m.groups), nodots(groups)):
                raise Violation("searching %s: the match at %s has the groups %s, not %s" % (what, at, m.groups, groups))
        first = want[0] if want else None
        if list(t.indexes(p, x)) != [w[0] for w in want] or t.index(p, x) != (first and first[0]) or t.count(p, x) != len(want) or t.contains(p, x) != bool(want):
            raise Violation("index, indexes, count or contains of %s: %s, %s, %s, %s; the matches are %s" % (what, t.index(p, x), list(t.indexes(p, x)), t.count(p, x), t.contains(p, x), [w[0] for w in want]))
        one, refs = t.findRef(p, x), list(t.findAllRef(p, x))
        if len(refs) != len(want) or any(a is not w[1] for a, w in zip(refs, want)) or (one is not first[1] if first else one is not None):
            raise Violation("findRef or findAllRef of %s gives %s and %s" % (what, one, refs))
        one, copies = t.findCopy(p, x), list(t.findAllCopy(p, x))
        if not jsame(copies, [w[1] for w in want]) or not jsame(one, first and first[1]):
            raise Violation("findCopy or findAllCopy of %s gives %s and %s, not copies of %s" % (what, one, copies, [w[1] for w in want]))
        for c in copies + [one]:
            scramble(c)
        if not jsame(x, keep):
            raise Violation("changing what findCopy and findAllCopy of %s return changes the original: %s" % (what, json.dumps(x)))
    except (Violation, Discard):
        raise
    except Exception as err:
        raise Violation("searching %s fails with %s (%s)" % (what, type(err).__name__, err))
    if want:
        d.nontrivial([text, x])
    d.label("%d matches" % min(len(want), 4))


def scramble(x):
    if isinstance(x, dict):
        for v in x.values():
            scramble(v)
        x["scrambled"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("scrambled")


def put(x, at, to):
    if not at:
        return to
    x = dict(x) if isinstance(x, dict) else list(x)
    x[at[0]] = put(x[at[0]], at[1:], to)
    return x


def cut(x, at):
    x = dict(x) if isinstance(x, dict) else list(x)
    if len(at) == 1:
        del x[at[0]]
    else:
        x[at[0]] = cut(x[at[0]], at[1:])
    return x


def edits(d):
    x = tree(d)
    if not isinstance(x, (dict, list)) or not x:
        raise Discard()
    keep = copy.deepcopy(x)
    at = d.choice([a for a, _ in subtrees(x)])
    to = tree(d, 2)
    casual = at
    if at and d.bool():
        casual = (", " if d.bool() else ",").join(map(str, at))
    p, text, f = pattern(d, x)
    d.note([x, casual, to, text])
    d.sut()
    what = "%s of %s" % (casual, json.dumps(x))
    try:
        y = x
        for k in at:
            y = y[k]
        if t.get(x, casual) is not y:
            raise Violation("get %s gives %s" % (what, t.get(x, casual)))
        got = t.assigned(x, casual, to)
        if not jsame(got, put(x, at, to)):
            raise Violation("assigned %s to %s gives %s" % (what, to, got))
        if not jsame(x, keep):
            raise Violation("assigned %s changes the original" % what)
        if at:
            got = t.removed(x, casual)
            if not jsame(got, cut(x, at)) or not jsame(x, keep):
                raise Violation("removed %s gives %s, leaving %s" % (what, got, x))
            z = copy.deepcopy(x)
            if t.assign(z, casual, to) is not None or not jsame(z, put(x, at, to)):
                raise Violation("assigning %s in %s gives %s" % (to, what, z))
            z = copy.deepcopy(x)
            t.remove(z, casual)
            if not jsame(z, cut(x, at)):
                raise Violation("removing %s gives %s" % (what, z))
        ats = [a for a, y in subtrees(x) if f(y) is not None]
        if any(a != b and a == b[:len(a)] for a in ats for b in ats):
            d.label("nested matches")
        else:
            want = x
            for a in ats:
                want = put(want, a, to)
            got = t.assignedAt(p, x, to)
            if not jsame(got, want) or not jsame(x, keep):
                raise Violation("assignedAt %s in %s with %s gives %s, leaving %s" % (text, json.dumps(keep), to, got, x))
            if () not in ats:
                z = copy.deepcopy(x)
                t.assignAt(p, z, to)
                if not jsame(z, want):
                    raise Violation("assignAt %s in %s with %s gives %s" % (text, json.dumps(keep), to, z))
            d.label("%d replaced" % min(len(ats), 4))
    except (Violation, Discard):
        raise
    except Exception as err:
        raise Violation("editing %s (to %s, pattern %s) fails with %s (%s)" % (what, to, text, type(err).__name__, err))
    if len(at) > 1:
        d.nontrivial([x, at, to])


def looks(d):
    """what look shows, without its index column, is the document; the index column leads to the data"""
    x = {"k": tree(d), "l": tree(d), "m": tree(d)}
    dropat, inline, deep, width = d.bool(), d.int(0, 3), d.weighted([(3, 9), (1, 1), (1, 2)]), d.choice([30, 12])
    d.note([x, dropat, inline, deep])
    d.sut()
    out = io.StringIO()
    try:
        t.look(x, maxDepth=deep, inlineDepth=inline, indexWidth=width, dropAt=dropat, stream=out)
    except Exception as err:
        raise Violation("look at %s fails with %s (%s)" % (json.dumps(x), type(err).__name__, err))
    lines = out.getvalue().split("\n")
    want = nodots(x) if dropat else x
    rows = [(r[:width].strip(), r[width + 1:]) for r in lines[2:-1]]
    text = "\n".join(b for a, b in rows)
    if "{...}" not in text and "[...]" not in text:
        try:
            got = json.loads(text)
        except ValueError:
            raise Violation("look at %s shows text that is not JSON:\n%s" % (json.dumps(x), out.getvalue()))
        if not jsame(got, want):
            raise Violation("look at %s shows %s:\n%s" % (json.dumps(want), json.dumps(got), out.getvalue()))
    elif deep == 9:
        raise Violation("look at %s leaves something out:\n%s" % (json.dumps(x), out.getvalue()))
    for a, b in rows:
        if a and not a.endswith("..."):
            y = t.get(want, a)
            s = re.sub(r",$", "", b.strip())
            k = a.split(",")[-1]
            if isinstance(t.get(want, a.rpartition(",")[0]) if "," in a else want, dict):
                if not s.startswith(json.dumps(k) + ": "):
                    raise Violation("look at %s shows %r for %s" % (json.dumps(want), b, a))
                s = s[len(json.dumps(k)) + 2:]
            if s not in ("{", "[", "{...}", "[...]"):
                try:
                    same_ = jsame(json.loads(s), y)
                except ValueError:
                    same_ = False
                if not same_:
                    raise Violation("look at %s shows %r for %s" % (json.dumps(want), b, a))
            elif (s[0] == "{") != isinstance(y, dict):
                raise Violation("look at %s shows %r for %s" % (json.dumps(want), b, a))
    d.nontrivial([x, inline, deep])


SUBS = [Sub("formulas", formulas, 500, 12000), Sub("statements", statements, 400, 10000), Sub("refused", refused, 300, 1000), Sub("transformations", transformations, 800, 10000),
        Sub("searches", searches, 8000, 100000), Sub("edits", edits, 5000, 40000), Sub("looks", looks, 800, 10000)]
