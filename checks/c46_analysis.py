"""C46: collecting and replacing in syntax trees and the queries of the call graph are exact."""
import json

import c03_roundtrip as c03
from pbt import Violation, show
from runner import Sub
from titus.genpy import PFAEngine
from titus.pfaast import Call, LiteralInt, LiteralString, Ref
from titus.reader import jsonToAst

RULE = ("trees: generated documents using every construct (as in C03) with uniquely named references and nested calls as markers in any expression position; collecting the markers must give each exactly once "
        "and replacing some of them must give the document with exactly these substituted (the outermost where they are nested), leaving the original alone; queries: generated documents with user functions "
        "calling each other and library functions from any place; the functions reached, call depth, recursion and side effects are compared with the generated graph; non-trivial when the document has at least "
        "three markers or calls between user functions; distinct = distinct documents")
ASSUMPTIONS = ["the order in which collect gives its results is not specified",
               "whether a function that only calls itself through others counts as recursive, and the depth counted below functions with excluded callees, are not specified"]
FACTOR = {"quick": 2, "thorough": 4}
MARKS = ["mark_%d" % i for i in range(200)]


class Gen(c03.Gen):
    def __init__(self, d):
        super(Gen, self).__init__(d)
        self.k = 0

    def expr(self, depth):
        if self.k < 150:
            if self.d.chance(1, 6):
                self.k += 1
                return MARKS[self.k]
            if self.d.chance(1, 8):
                self.k += 1
                name = MARKS[self.k]
                return {name: [self.arg(depth - 1) for _ in range(self.d.below(3))] if depth > 0 else []}
        return super(Gen, self).expr(depth)


def marksof(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in MARKS:
                out.append(k)
            marksof(v, out)
    elif isinstance(x, list):
        for v in x:
            marksof(v, out)
    elif isinstance(x, str) and x in MARKS:
        out.append(x)
    return out


def substituted(x, new):
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k in new:
                return new[k][1]
        return {k: substituted(v, new) for k, v in x.items()}
    if isinstance(x, list):
        return [substituted(v, new) for v in x]
    if isinstance(x, str) and x in new:
        return new[x][1]
    return x


class Markers(object):
    def __init__(self, names, f):
        self.names = names
        self.f = f

    def isDefinedAt(self, ast):
        return isinstance(ast, (Ref, Call)) and ast.name in self.names

    def __call__(self, ast):
        return self.f(ast)


def trees(d):
    g = Gen(d)
    doc = g.doc()
    d.note(doc)
    noname = "name" not in doc
    marks = marksof(doc, [])
    want = c03.normal(doc)
    some = [m for m in marks if d.chance(1, 2)]
    new = {}
    for m in some:
        k = d.below(4)
        if k == 0:
            new[m] = (lambda pos: LiteralInt(7, pos), 7)
        elif k == 1:
            new[m] = (lambda pos: LiteralString("s", pos), {"string": "s"})
        elif k == 2:
            new[m] = (lambda pos, n="other" + m: Ref(n, pos), "other" + m)
        else:
            new[m] = (lambda pos, n="other" + m: Call(n, [Ref("z")], pos), {"other" + m: ["z"]})
    d.sut()
    ast = jsonToAst(json.dumps(doc))
    got = ast.collect(Markers(marks, lambda x: x.name))
    if sorted(got) != sorted(marks):
        missing = [m for m in marks if m not in got]
        raise Violation("collecting %d markers gives %d: without %s, twice %s" % (len(marks), len(got), missing, sorted(set(m for m in got if got.count(m) > 1))))
    got = ast.collect(Markers(some, lambda x: x.name))
    if sorted(got) != sorted(some):
        raise Violation("collecting %s gives %s" % (show(sorted(some)), show(sorted(got))))
    out = ast.replace(Markers(some, lambda x: new[x.name][0](x.pos)))
    sub = c03.normal(substituted(doc, new))
    res = c03.normal(out.jsonNode(False, set()))
    # a type may have been defined in what was replaced
    for x in (sub, res):
        x.pop("(types)")
        if noname:
            x.pop("name", None)
    if sub != res:
        raise Violation("with %s replaced: %s" % (", ".join(some), c03.firstdiff(sub, res)))
    c03.check_same(want, ast.jsonNode(False, set()), "after another was made of it by replacement", noname)
    if len(marks) >= 3:
        d.nontrivial(json.dumps(doc, sort_keys=True))


class Fns(object):
    """user functions and what each of them calls"""
    def __init__(self, d):
        self.d = d
        self.n = d.int(1, 5)
        self.modrate = d.choice([0, 0, 1, 3])
        self.calls = {}
        self.v = 0
        self.backward = d.chance(1, 2)

    def var(self):
        self.v += 1
        return "v%d" % self.v

    def expr(self, out, me, depth, x):
        """an expression of type int; what it calls is added to out"""
        d = self.d
        k = d.below(13)
        arr = {"type": {"type": "array", "items": "int"}, "value": [1, 2]}
        js = [j for j in range(self.n) if j > me or self.backward]
        if depth > 3 or k == 0:
            return x
        if k <= 2:
            out.add("+")
            return {"+": [self.expr(out, me, depth + 1, x), x]}
        if k <= 5 and js:
            f = "u.f%d" % d.choice(js)
            out.add(f)
            return {f: [self.expr(out, me, depth + 1, x)]}
        if k == 6 and js:
            f = "u.f%d" % d.choice(js)
            out.update([f, "a.map", "a.sum"])
            return {"a.sum": [{"a.map": [arr, {"fcn": f}]}]}
        if k == 7:
            v = self.var()
            out.update(["a.map", "a.len"])
            return {"a.len": [{"a.map": [arr, {"params": [{v: "int"}], "ret": "int", "do": self.expr(out, me, depth + 1, v)}]}]}
        if k == 8:
            out.update(["if", ">"])
            return {"if": {">": [self.expr(out, me, depth + 1, x), x]}, "then": self.expr(out, me, depth + 1, x), "else": self.expr(out, me, depth + 1, x)}
        if k == 9 and self.modrate and d.chance(self.modrate, 3):
            j = d.below(3)
            out.add("do")
            if j == 0:
                out.add("cell-to")
                return {"do": [{"cell": "c", "to": x}, x]}
            if j == 1:
                out.update(["pool-to", "(string)"])
                return {"do": [{"pool": "p", "path": [{"string": "k"}], "to": x, "init": x}, x]}
            out.update(["pool-del", "(string)"])
            return {"do": [{"pool": "p", "del": {"string": "k"}}, x]}
        if k == 11 and d.bool():
            out.update(["u.g", "a.map", "a.len"])
            return {"a.len": [{"a.map": [arr, {"fcn": "u.g", "fill": {"y": self.expr(out, me, depth + 1, x)}}]}]}
        if k == 12 and d.bool():
            out.update(["foreach", "do", "a.append"])
            v = self.var()
            return {"do": [{"foreach": v, "in": {"a.append": [arr, self.expr(out, me, depth + 1, x)]}, "do": self.expr(out, me, depth + 1, v)}, x]}
        if k == 10:
            out.add("cell")
            return {"cell": "c"}
        v = self.var()
        out.update(["do", "let"])
        return {"do": [{"let": {v: self.expr(out, me, depth + 1, x)}}, self.expr(out, me, depth + 1, v)]}


def queries(d):
    g = Fns(d)
    fcns = {}
    for i in range(g.n):
        out = {"+"}
        e = g.expr(out, i, 0, "x")
        fcns["f%d" % i] = {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", e]}}
        g.calls["u.f%d" % i] = out
    fcns["g"] = {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": {"+": ["x", "y"]}}
    g.calls["u.g"] = {"+"}
    out = set()
    doc = {"input": "int", "output": "int", "cells": {"c": {"type": "int", "init": 0}}, "pools": {"p": {"type": "int", "init": {}}},
           "fcns": fcns, "action": g.expr(out, -1, 0, "input")}
    g.calls["(action)"] = out
    d.note(doc)
    d.sut()
    engine, = PFAEngine.fromJson(doc)
    for f in sorted(g.calls):
        # everything that can be reached
        reach, todo = set(), [f]
        while todo:
            for c in g.calls.get(todo.pop(), ()):
                if c not in reach:
                    reach.add(c)
                    todo.append(c)
        named = lambda s: set(x for x in s if x[:2] == "u." or x in ("+", ">", "a.map", "a.len", "a.sum", "a.append", "cell-to", "pool-to", "pool-del"))
        got = named(engine.calledBy(f))
        if got != named(reach):
            raise Violation("%s calls, directly or not, %s; calledBy gives %s" % (f, sorted(named(reach)), sorted(got)))
        state = bool(reach & {"cell-to", "pool-to", "pool-del"})
        if engine.hasSideEffects(f) is not state:
            raise Violation("hasSideEffects(%r) is %s; it reaches %s" % (f, engine.hasSideEffects(f), sorted(reach)))
        cycle = any(c in reach_of(g.calls, c) for c in reach | {f})
        want = float("inf") if cycle else depth(g.calls, f)
        if engine.callDepth(f) != want:
            raise Violation("callDepth(%r) is %s instead of %s" % (f, engine.callDepth(f), want))
        if engine.hasRecursive(f) is not cycle:
            raise Violation("hasRecursive(%r) is %s with a call depth of %s" % (f, engine.hasRecursive(f), want))
        rec = engine.isRecursive(f)
        if f in g.calls[f] and rec is not True or f not in reach and rec is not False:
            raise Violation("isRecursive(%r) is %s" % (f, rec))
        if cycle:
            d.label("recursive")
        if state:
            d.label("side effects")
    if sum(1 for f in g.calls for c in g.calls[f] if c[:2] == "u.") >= 2:
        d.nontrivial(json.dumps(doc, sort_keys=True))


def reach_of(calls, f):
    reach, todo = set(), [f]
    while todo:
        for c in calls.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    return reach


def depth(calls, f):
    return max([1 + depth(calls, c) for c in calls[f]] or [0]) if f in calls else 0


SUBS = [Sub("trees", trees, 300, 8000), Sub("queries", queries, 400, 12000)]
