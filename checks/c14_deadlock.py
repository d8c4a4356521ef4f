"""C14: documents whose update functions could modify cells or pools are refused, the others accepted."""
import json
import threading

import engines
from engines import compile_outcome, outcome
from pbt import Violation, show
from runner import Sub
from titus.genpy import PFAEngine

CONFIRM = False
RULE = ("generated documents with user functions, inline functions and references calling each other from every position of every special form and as callbacks of library functions, with reads and "
        "modifications of cells and pools at random places and updates by function in begin, action, end, merge and user functions; refused with an initialization error exactly if some update "
        "function can reach a modification in the generated call graph; accepted documents are run (as shared state) and must not block; non-trivial when some update function calls something; "
        "distinct = distinct documents")
ASSUMPTIONS = ["a call counts as possible whether or not the surrounding conditions ever allow it"]
FACTOR = {"quick": 4, "thorough": 10}

ARR = {"type": {"type": "array", "items": "int"}, "value": [1]}
IARR = {"type": "array", "items": "int"}
IMAP = {"type": "map", "values": "int"}


class Fn(object):
    def __init__(self):
        self.mod = False
        self.calls = set()


class Doc(object):
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.sites = []
        self.nf = d.int(1, 5)
        self.fns = {}
        self.fcns = {}
        self.modrate = d.choice([0, 1, 1, 2, 4])
        self.budget = 0
        for i in range(self.nf):
            name = "f%d" % i
            self.budget = 8
            f = self.fns[name] = Fn()
            self.cur = i
            self.fcns[name] = {"params": [{"x": "int"}], "ret": "int", "do": self.body(f, "x")}
        self.cur = self.nf
        self.budget = 6
        g = self.fns["g0"] = Fn()
        self.fcns["g0"] = {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": self.body(g, "x")}
        self.cur = -1
        top = Fn()
        self.budget = 12
        doc = {"input": "int", "output": "int",
               "cells": {"c": {"type": "int", "init": 0, "shared": True}, "d": {"type": "int", "init": 0, "shared": d.bool()}, "ca": {"type": IARR, "init": [1, 2], "shared": d.bool()}},
               "pools": {"p": {"type": "int", "init": {"k": 0}, "shared": True}},
               "fcns": self.fcns, "action": [{"let": {"x": "input"}}] + self.body(top, "x")}
        if d.chance(1, 3):
            doc["begin"] = [{"let": {"x": 1}}] + self.body(top, "x")
        if d.chance(1, 3):
            doc["end"] = [{"let": {"x": 1}}] + self.body(top, "x")
        if d.chance(1, 4):
            doc["method"] = "fold"
            doc["zero"] = 0
            doc["merge"] = [{"let": {"x": "tallyOne"}}] + self.body(top, "x")
        if not self.sites:
            doc["action"].append(self.update(top, 0, "x"))
        self.doc = doc

    def var(self):
        self.n += 1
        return "v%d" % self.n

    def callee(self, fn):
        """a function this one may call; calls of earlier functions are never carried out"""
        j = "f%d" % self.d.below(self.nf)
        fn.calls.add(j)
        return j, int(j[1:]) > self.cur

    def guard(self, e, real):
        return e if real else {"if": {"<": [1, 0]}, "then": e, "else": 0}

    def body(self, fn, x):
        out = [self.expr(fn, 0, x)]
        if self.d.chance(1, 4):
            out.insert(0, {"doc": "something"})
        return out

    def updater(self, fn, depth, t="int", ret=None):
        d = self.d
        if d.chance(1, 8) and t == "int" and self.cur != self.nf:
            u = Fn()
            u.calls.add("g0")
            out = {"fcn": "u.g0", "fill": {"y": self.expr(u, depth + 1, 3)}}
            self.sites.append(u)
            fn.calls |= u.calls
            fn.mod = fn.mod or u.mod
            return out
        if d.chance(1, 3) and t == "int":
            u = Fn()
            j, real = self.callee(u)
            self.sites.append(u)
            fn.calls.add(j)
            if real:
                return {"fcn": "u." + j}
            if d.bool():
                # carried out only if allowed: through an inline function
                v = self.var()
                return {"params": [{v: "int"}], "ret": "int", "do": self.guard({"u." + j: [v]}, False)}
            return None
        u = Fn()
        v = self.var()
        if t == "int":
            body = self.expr(u, depth + 1, v)
        else:
            body = {"do": [self.expr(u, depth + 1, 1), v]}
        self.sites.append(u)
        fn.calls |= u.calls
        return {"params": [{v: t}], "ret": t, "do": body}

    def update(self, fn, depth, x):
        d = self.d
        fn.mod = True
        k = d.below(4)
        if k == 3:
            return {"do": [{"cell": "ca", "to": self.updater(fn, depth, IARR)}, x]}
        u = self.updater(fn, depth)
        if u is None:
            u = {"params": [{"q": "int"}], "ret": "int", "do": "q"}
            # the reference stays part of the document, where it is never carried out
            self.sites.pop()
        if k == 0:
            return {"cell": "c", "to": u}
        if k == 1:
            return {"do": [{"cell": "ca", "path": [0], "to": u}, x]}
        return {"pool": "p", "path": [["k"]], "to": u, "init": 0 if d.bool() else self.expr(fn, depth + 1, x)}

    def mod(self, fn, depth, x):
        fn.mod = True
        k = self.d.below(4)
        if k == 0:
            return {"cell": "d", "to": self.expr(fn, depth + 1, x)}
        if k == 1:
            return {"pool": "p", "path": [["k"]], "to": self.expr(fn, depth + 1, x), "init": 0}
        if k == 2:
            return {"do": [{"pool": "p", "del": ["k"]}, x]}
        return self.update(fn, depth, x)

    def leaf(self, fn, depth, x):
        d = self.d
        r = d.below(20)
        if r < self.modrate and depth < 7:
            return self.mod(fn, depth, x)
        if r < 8 and self.nf:
            j, real = self.callee(fn)
            return self.guard({"u." + j: [x]}, real)
        if r < 10:
            return {"cell": "c"}
        if r < 11:
            return {"cell": "d"}
        if r < 14:
            return d.choice([1, 5])
        return x

    def expr(self, fn, depth, x):
        """an int expression"""
        d = self.d
        self.budget -= 1
        if depth > 4 or self.budget < 0 or d.chance(1, 6):
            return self.leaf(fn, depth, x)
        v, w = self.var(), self.var()

        def E(y=x):
            return self.expr(fn, depth + 1, y)
        if d.chance(1, 10):
            return self.update(fn, depth, x)
        k = d.below(55)
        if k == 0:
            return {"+": [{"%": [E(), 100]}, 1]}
        if k == 1:
            return {"do": [E(), x]}
        if k == 2:
            return {"do": [{"let": {v: E()}}, v]}
        if k == 3:
            return {"do": [{"let": {v: 0}}, {"set": {v: E()}}, v]}
        if k == 4:
            return {"if": {"<": [E(), 0]}, "then": 1, "else": 2}
        if k == 5:
            return {"if": {">": [x, 0]}, "then": E(), "else": 2}
        if k == 6:
            return {"if": {">": [x, 0]}, "then": 2, "else": E()}
        if k in (7, 8, 9):
            c = [{"if": {"<": [E() if k == 7 else x, 0]}, "then": E() if k == 8 else 1}, {"if": {">": [x, 5]}, "then": 3}]
            return {"cond": c, "else": E() if k == 9 else 0}
        if k == 10:
            return {"do": [{"while": {"<": [{"do": [E(), 1]}, 0]}, "do": [1]}, x]}
        if k == 11:
            return {"do": [{"let": {v: 0}}, {"while": {"<": [v, 1]}, "do": [E(), {"set": {v: {"+": [v, 1]}}}]}, v]}
        if k == 12:
            return {"do": [{"do": [E()], "until": {"<": [1, 2]}}, x]}
        if k == 13:
            return {"do": [{"do": [1], "until": {"<": [{"do": [E(), 1]}, 2]}}, x]}
        if k in (14, 15, 16, 17):
            return {"do": [{"for": {v: {"do": [E(), 0]} if k == 14 else 0}, "while": {"<": [{"do": [E(), v]} if k == 15 else v, 1]},
                            "step": {v: {"+": [{"do": [E(), v]} if k == 16 else v, 1]}}, "do": [E() if k == 17 else 1]}, x]}
        if k == 18:
            return {"do": [{"foreach": v, "in": {"new": [E()], "type": IARR}, "do": [v]}, x]}
        if k == 19:
            return {"do": [{"foreach": v, "in": ARR, "do": [E(v)]}, x]}
        if k == 20:
            return {"do": [{"forkey": v, "forval": w, "in": {"new": {"k": E()}, "type": IMAP}, "do": [w]}, x]}
        if k == 21:
            return {"do": [{"forkey": v, "forval": w, "in": {"type": IMAP, "value": {"k": 1}}, "do": [E(w)]}, x]}
        if k == 22:
            return {"attr": {"new": {"a": E()}, "type": IMAP}, "path": [["a"]]}
        if k == 23:
            return {"do": [{"let": {v: ARR}}, {"attr": v, "path": [{"do": [E(), 0]}]}]}
        if k == 24:
            return {"do": [{"let": {v: ARR}}, {"attr": v, "path": [{"do": [E(), 0]}], "to": 5}, x]}
        if k == 25:
            return {"do": [{"let": {v: ARR}}, {"attr": v, "path": [0], "to": E()}, x]}
        if k == 26:
            return {"do": [{"let": {v: ARR}}, {"attr": v, "path": [0], "to": {"params": [{w: "int"}], "ret": "int", "do": E(w)}}, x]}
        if k == 27:
            j, real = self.callee(fn)
            return {"do": [{"let": {v: ARR}}, self.guard({"do": [{"attr": v, "path": [0], "to": {"fcn": "u." + j}}, 1]}, real), x]}
        if k == 28:
            return {"do": [{"attr": {"new": [E()], "type": IARR}, "path": [0], "to": 5}, x]}
        if k == 29:
            return {"cell": "ca", "path": [{"do": [E(), 0]}]}
        if k == 30:
            return {"do": [{"try": [{"pool": "p", "path": [{"do": [E(), {"string": "k"}]}]}]}, x]}
        if k in (31, 32):
            return {"cast": {"upcast": E() if k == 31 else x, "as": ["int", "string"]},
                    "cases": [{"as": "int", "named": v, "do": [E(v) if k == 32 else v]}, {"as": "string", "named": w, "do": [0]}]}
        if k == 33:
            return {"upcast": E(), "as": "int"}
        if k in (34, 35, 36):
            return {"ifnotnull": {v: {"upcast": E() if k == 34 else x, "as": ["int", "null"]}}, "then": E(v) if k == 35 else v, "else": E() if k == 36 else 0}
        if k == 37:
            return {"do": [{"pack": [{"int": E()}]}, x]}
        if k in (38, 39, 40):
            b = {"pack": [{"int": x}]}
            return {"unpack": {"do": [E(), b]} if k == 38 else b, "format": [{v: "int"}], "then": E(v) if k == 39 else v, "else": E() if k == 40 else 0}
        if k == 41:
            return {"ifnotnull": {v: {"try": [E()]}}, "then": v, "else": 0}
        if k == 42:
            return {"do": [{"log": [E()]}, x]}
        if k == 43:
            return {"attr": {"new": [E(), E()], "type": IARR}, "path": [1]}
        if k == 44:
            self.n += 1
            return {"attr": {"new": {"a": E()}, "type": {"type": "record", "name": "R%d" % self.n, "fields": [{"name": "a", "type": "int"}]}}, "path": [["a"]]}
        if k == 45:
            return {"a.head": [{"a.map": [ARR, {"params": [{v: "int"}], "ret": "int", "do": E(v)}]}]}
        if k in (46, 47):
            j, real = self.callee(fn)
            return self.guard({"a.head": [{"a.map": [{"new": [E()], "type": IARR} if k == 47 else ARR, {"fcn": "u." + j}]}]}, real)
        if k == 48:
            return {"a.fold": [ARR, E(), {"params": [{v: "int"}, {w: "int"}], "ret": "int", "do": E(v)}]}
        if k == 49:
            j, real = self.callee(fn)
            return self.guard({"a.head": [{"a.map": [ARR, {"params": [{v: "int"}], "ret": "int", "do": {"u." + j: [v]}}]}]}, real)
        if k in (50, 51):
            a, ra = self.callee(fn)
            b, rb = self.callee(fn)
            self.n += 1
            syms = sorted(set([a, b]))
            return self.guard({"call": {"type": {"type": "enum", "name": "E%d" % self.n, "symbols": syms}, "value": a}, "args": [E() if k == 51 else x]}, ra)
        if k == 52:
            return {"attr": {"map.add": [{"type": IMAP, "value": {}}, ["a"], E()]}, "path": [["a"]]}
        if k == 53 and self.cur != self.nf:
            fn.calls.add("g0")
            return {"a.head": [{"a.map": [ARR, {"fcn": "u.g0", "fill": {"y": E()}}]}]}
        return {"do": [{"if": {"==": [E(), E()]}, "then": [E()]}, x]}

    def reaches(self, fn):
        seen, todo = set(), [fn]
        while todo:
            f = todo.pop()
            if f.mod:
                return True
            for c in f.calls:
                if c not in seen:
                    seen.add(c)
                    todo.append(self.fns[c])
        return False


def graphs(d):
    D = Doc(d)
    d.note(D.doc)
    bad = any(D.reaches(u) for u in D.sites)
    d.sut()
    kind, e = compile_outcome(D.doc)
    if bad and kind != "init":
        raise Violation("an update function can modify cells or pools, but the document is %s: %s" % ("accepted" if kind == "ok" else "refused with %s %s" % (kind, e), json.dumps(D.doc)))
    if not bad and kind != "ok":
        raise Violation("no update function can modify cells or pools, but the document is refused (%s): %s\n%s" % (kind, e, json.dumps(D.doc)))
    d.label("refused" if bad else "accepted")
    if kind == "ok":
        e.log = lambda message, namespace: None
        res = []

        def run():
            try:
                e.begin()
                res.append(outcome(e.action, 3))
                if D.doc.get("method") == "fold":
                    e.merge(1, 2)
                e.end()
                res.append("end")
            except BaseException as err:
                res.append(err)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join(30)
        if t.is_alive():
            raise Violation("the accepted document blocks when it is run: %s" % json.dumps(D.doc))
        if not res or res[-1] != "end":
            if isinstance(res[-1], BaseException):
                import traceback
                raise Violation("running gave %s: %s\n%s" % (type(res[-1]).__name__, res[-1], json.dumps(D.doc)))
    if any(u.calls for u in D.sites):
        d.nontrivial(json.dumps(D.doc, sort_keys=True))


SUBS = [Sub("graphs", graphs, 1500, 40000)]
