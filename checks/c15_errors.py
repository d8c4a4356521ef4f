"""C15: errors are raised, caught and coded as declared, and leave engines usable."""
import json

import engines
import pbt
from engines import outcome
from pbt import Violation, show
from runner import Sub
from progs import Program
from drive import pair

RULE = ("trees: a generated tree of statements that append marks to state, fail with user or library errors, and try with filters, placed in conditionals, loops, callbacks, "
        "user functions, arguments and state updates; the marks and errors observed over several actions are compared with a direct interpretation of the tree; "
        "histories: actions and merges that write cells and pools (with and without rollback) and fail at generated points, state and tally after each call against a model; "
        "programs: generated programs with frequent errors against the reference interpreter over longer histories; "
        "a case is non-trivial when an error was raised (caught or not) in it; distinct = distinct documents")
ASSUMPTIONS = ["arguments of a call are evaluated left to right"]
FACTOR = {"quick": 3, "thorough": 6}

ARR = {"type": "array", "items": "int"}
MAPT = {"type": "map", "values": "int"}
# expression of type int, message, code
LIB = [({"//": [1, {"*": [0, 2]}]}, "integer division by zero", 18040),
       ({"%": ["k", 0]}, "integer division by zero", 18060),
       ({"attr": {"type": ARR, "value": [1]}, "path": [5]}, "array index not found", 2000),
       ({"attr": {"type": MAPT, "value": {"a": 1}}, "path": [["b"]]}, "map key not found", 2001),
       ({"cell": "arr", "path": [7]}, "array index not found", 2004),
       ({"cell": "mp", "path": [["zz"]]}, "map key not found", 2005),
       ({"pool": "pl", "path": [["zz"]]}, "map key not found", 2009),
       ({"a.head": [{"type": ARR, "value": []}]}, "empty array", 15020),
       ({"+": [2147483647, {"*": [1, 1]}]}, "int overflow", 18000),
       ({"parse.int": [["x1"], 10]}, "not an integer", 33000),
       ({"a.mode": [{"type": ARR, "value": []}]}, "empty array", 15470)]
MESSAGES = ["boom", "bad", "", "integer division by zero", "é"]
CODES = [-1, -2, -7, -2000]


class Raised(Exception):
    def __init__(self, message, code, user):
        Exception.__init__(self, message, code)
        self.message, self.code, self.user = message, code, user


class Tree(object):
    """generates a statement (JSON) together with its effect: run(marks, k) appends to marks or raises; value is an int"""

    def __init__(self, d, emit):
        self.d, self.emit = d, emit
        self.n = 0
        self.fns = {}
        self.budget = d.choice([6, 12, 25, 40])
        self.errs = d.choice([3, 6, 12])
        self.raises = 0

    def mark(self):
        self.n += 1
        n = self.n
        k = self.d.below(3 if self.emit else 2)
        app = lambda v: {"params": [{"old": ARR}], "ret": ARR, "do": [{"a.append": ["old", v]}]}

        def run(st, k):
            st.trace.append(n)
            st.roll.append(n)
            return n
        if k == 2:
            def run(st, k):
                st.emitted.append(n)
                return n
            return {"do": [{"emit": n}, n]}, run
        if k == 1:
            return {"do": [{"cell": "trace", "to": app(n)}, {"pool": "roll", "path": [["t"]], "to": app(n), "init": {"type": ARR, "value": []}}, n]}, run
        return {"do": [{"u.mark": [n]}, n]}, run

    def error(self):
        d = self.d
        if d.bool():
            m, c = d.choice(MESSAGES), d.choice([None] + CODES)
            j = {"error": m}
            if c is not None:
                j["code"] = c

            def run(st, k):
                self.raises += 1
                raise Raised(m, c, True)
            return {"do": [j, 0]} if d.bool() else {"if": {">": ["k", -99]}, "then": [j], "else": [0]}, run
        j, m, c = d.choice(LIB)

        def run(st, k):
            self.raises += 1
            raise Raised(m, c, False)
        return j, run

    def filter(self):
        d = self.d
        if d.chance(1, 3):
            return None
        pool = MESSAGES + CODES + [x for _, m, c in LIB for x in (m, c)] + [0, 1]
        return d.sample(pool, d.int(1, 6)) if d.chance(5, 6) else [d.choice(pool)]

    def seq(self, depth, lo=1):
        xs = [self.stmt(depth) for _ in range(self.d.int(lo, 3))]

        def run(st, k):
            out = None
            for x in xs:
                out = x[1](st, k)
            return out
        return [x[0] for x in xs], run

    def stmt(self, depth):
        """an expression of type int"""
        d = self.d
        self.budget -= 1
        if depth <= 0 or self.budget <= 0:
            return self.error() if d.below(12) < 12 // self.errs else self.mark()
        kind = d.weighted([(4, "mark"), (2, "error"), (5, "try"), (2, "if"), (1, "cond"), (2, "foreach"), (2, "map"), (2, "fn"), (2, "args"), (1, "update"), (1, "do"), (1, "guard"),
                           (1, "while"), (1, "pupdate"), (1, "and")])
        if kind == "mark":
            return self.mark()
        if kind == "error":
            return self.error()
        if kind == "try":
            body, f = self.seq(depth - 1)
            filt = self.filter()
            self.n += 1
            n = self.n
            j = {"try": body if len(body) > 1 or d.bool() else body[0]}
            if filt is not None:
                j["filter"] = filt

            def run(st, k):
                try:
                    v = f(st, k)
                except Raised as e:
                    if filt is None or e.message in filt or e.code is not None and e.code in filt:
                        st.trace.append(-n)
                        st.roll.append(-n)
                        return -n
                    raise
                st.trace.append(v)
                st.roll.append(v)
                return v
            v = "v%d" % n
            return {"ifnotnull": {v: j}, "then": [{"u.mark": [v]}, v], "else": [{"u.mark": [-n]}, {"u-": [n]}]}, run
        if kind == "do":
            b, f = self.seq(depth - 1)
            return {"do": b}, f
        if kind == "if":
            c = d.choice([0, 1, 2])
            a, f = self.seq(depth - 1)
            b, g = self.seq(depth - 1)
            return {"if": {"==": [{"%": ["k", 3]}, c]}, "then": a, "else": b}, lambda st, k: f(st, k) if k % 3 == c else g(st, k)
        if kind == "cond":
            a, f = self.seq(depth - 1)
            b, g = self.seq(depth - 1)
            p, h = self.stmt(depth - 1)

            def run(st, k):
                if h(st, k) > 3:
                    return f(st, k)
                return g(st, k)
            return {"cond": [{"if": {">": [p, 3]}, "then": a}], "else": b}, run
        if kind == "foreach":
            b, f = self.seq(depth - 1)
            self.n += 1
            v = "w%d" % self.n
            m = d.int(1, 3)

            def run(st, k):
                for i in range(m):
                    f(st, k)
                return 0
            return {"do": [{"foreach": v, "in": {"type": ARR, "value": list(range(m))}, "do": b}, 0]}, run
        if kind == "while":
            b, f = self.seq(depth - 1)
            self.n += 1
            v = "w%d" % self.n
            m = d.int(1, 2)

            def run(st, k):
                for i in range(m):
                    f(st, k)
                return m
            return {"do": [{"let": {v: 0}}, {"while": {"<": [v, m]}, "do": b + [{"set": {v: {"+": [v, 1]}}}]}, v]}, run
        if kind == "map":
            b, f = self.seq(depth - 1)
            self.n += 1
            v = "w%d" % self.n
            m = d.int(1, 3)

            def run(st, k):
                return sum(f(st, k) for i in range(m))
            return {"a.sum": [{"a.map": [{"type": ARR, "value": [1] * m}, {"params": [{v: "int"}], "ret": "int", "do": b}]}]}, run
        if kind == "fn":
            b, f = self.seq(depth - 1)
            nm = "f%d" % len(self.fns)
            self.fns[nm] = {"params": [{"k": "int"}], "ret": "int", "do": b}
            return {"u." + nm: ["k"]}, lambda st, k: f(st, k)
        if kind == "args":
            a, f = self.stmt(depth - 1)
            b, g = self.stmt(depth - 1)

            def run(st, k):
                x = f(st, k)
                y = g(st, k)
                return x + y
            return {"+": [a, b]}, run
        if kind == "and":
            a, f = self.stmt(depth - 1)
            b, g = self.stmt(depth - 1)
            op = d.choice(["&&", "||"])

            def run(st, k):
                x = f(st, k) > 0
                if op == "&&":
                    x = x and g(st, k) > 0
                else:
                    x = x or g(st, k) > 0
                return 1 if x else 0
            return {"if": {op: [{">": [a, 0]}, {">": [b, 0]}]}, "then": [1], "else": [0]}, run
        if kind in ("update", "pupdate"):
            # an update whose function fails must leave the value as it was
            bad, f = self.error() if d.bool() else (self.d.choice([{"+": ["k", 1]}, {"*": ["k", 2]}]), None)
            j = bad
            if f is None:
                ev = (lambda k: k + 1) if "+" in bad else (lambda k: k * 2)
            old = {"params": [{"old": "int"}], "ret": "int", "do": [j]}
            if kind == "update":
                def run(st, k):
                    v = f(st, k) if f else ev(k)
                    st.cell0 = v
                    return v
                return {"attr": {"cell": "arr", "path": [0], "to": old}, "path": [0]}, run

            def run(st, k):
                v = f(st, k) if f else ev(k)
                st.pool["a"] = v
                return v
            return {"pool": "pl", "path": [["a"]], "to": old, "init": 0}, run
        if kind == "guard":
            a, f = self.stmt(depth - 1)
            return {"if": True, "then": [a], "else": [{"error": "never"}]}, f
        raise AssertionError(kind)


class State(object):
    def __init__(self):
        self.trace, self.roll, self.emitted, self.cell0, self.pool = [], [], [], 1, {"a": 0}


def trees(d):
    method = d.choice(["map", "emit", "fold", "map"])
    t = Tree(d, method == "emit")
    body, f = t.seq(4, lo=2)
    app = {"params": [{"old": ARR}], "ret": ARR, "do": [{"a.append": ["old", "n"]}]}
    t.fns["mark"] = {"params": [{"n": "int"}], "ret": "int", "do": [
        {"cell": "trace", "to": app}, {"pool": "roll", "path": [["t"]], "to": app, "init": {"type": ARR, "value": []}}, "n"]}
    action = [{"let": {"k": "input"}}] + body
    if method == "emit":
        action.append({"emit": -1})
    elif method == "fold":
        action = action[:-1] + [{"+": ["tally", action[-1]]}]
    doc = {"input": "int", "output": "int", "method": method, "action": action, "fcns": t.fns,
           "cells": {"trace": {"type": ARR, "init": []}, "arr": {"type": ARR, "init": [1]}, "mp": {"type": MAPT, "init": {"a": 1}}},
           "pools": {"roll": {"type": ARR, "init": {}, "rollback": True}, "pl": {"type": "int", "init": {"a": 0}}}}
    if method == "fold":
        doc["zero"] = 0
        doc["merge"] = [{"+": ["tallyOne", "tallyTwo"]}]
    d.note(doc)
    # u.mark may be called with names that exist only there
    d.sut()
    kind, e = engines.compile_outcome(doc)
    if kind != "ok":
        raise Violation("a well-formed program is refused: %s %s" % (e, json.dumps(doc)))
    emitted = []
    if method == "emit":
        e.emit = emitted.append
    e.begin()
    st = State()
    tally = 0
    started = finished = 0
    for x in d.list(lambda: d.int(0, 8), 1, 4):
        keep = list(st.roll)
        started += 1
        try:
            want = ("ok", f(st, x))
            if method == "emit":
                st.emitted.append(-1)
                want = ("ok", None)
            elif method == "fold":
                tally += want[1]
                want = ("ok", tally)
            finished += 1
        except Raised as r:
            want = ("user", r.message, r.code) if r.user else ("err", r.code)
            st.roll = keep
        got = outcome(e.action, x)
        if got[0] == "err":
            pass
        if got != want:
            raise Violation("action(%d) gave %s, expected %s: %s" % (x, show(got), show(want), json.dumps(doc)))
        now = {"trace": e.cells["trace"].value, "roll": e.pools["roll"].value.get("t", []), "arr": e.cells["arr"].value, "pl": e.pools["pl"].value,
               "emitted": emitted, "counters": [e.actionsStarted, e.actionsFinished], "tally": e.tally if method == "fold" else 0}
        exp = {"trace": st.trace, "roll": st.roll, "arr": [st.cell0], "pl": st.pool, "emitted": st.emitted, "counters": [started, finished], "tally": tally}
        for k in exp:
            if now[k] != exp[k]:
                raise Violation("after action(%d) %s is %s, expected %s: %s" % (x, k, show(now[k]), show(exp[k]), json.dumps(doc)))
        d.label("action " + want[0])
    if t.raises:
        d.nontrivial(json.dumps(doc, sort_keys=True))


def messages(d):
    """an uncaught library error carries its message"""
    j, m, c = d.choice(LIB)
    doc = {"input": "int", "output": "int", "action": [{"let": {"k": "input"}}, j],
           "cells": {"arr": {"type": ARR, "init": [1]}, "mp": {"type": MAPT, "init": {"a": 1}}}, "pools": {"pl": {"type": "int"}}}
    d.note(doc)
    d.sut()
    kind, e = engines.compile_outcome(doc)
    try:
        got = ("ok", e.action(d.int(0, 5)))
    except engines.PFARuntimeException as err:
        got = (err.message, err.code)
    if got != (m, c):
        raise Violation("%s raised %s, documented as %s" % (json.dumps(j), got, (m, c)))
    d.nontrivial(repr((m, c)))


def programs(d):
    p = Program(d, rollback=d.bool())
    d.note(p.doc)
    q = pair(p)
    d.sut()
    q.begin()
    errs = 0
    for _ in range(d.int(2, 6)):
        got, _ = q.action(p.gen_input())
        errs += got[0] != "ok"
        d.label("action " + got[0])
    q.end()
    if errs or "try" in p.g.features:
        d.nontrivial(json.dumps(p.doc, sort_keys=True))


def histories(d):
    """actions and merges of one engine that write state and may fail at any point: each failure undoes its own writes to state with rollback, and only those"""
    cells = ["c%d" % i for i in range(d.int(0, 2))]
    pools = ["p%d" % i for i in range(d.int(0 if cells else 1, 2))]
    roll = {n: d.chance(2, 3) for n in cells + pools}
    codes = iter(range(1, 100))

    def script(n, var):
        """[(kind, ...)], JSON: writes of distinct amounts, and errors for certain remainders of a variable"""
        steps, js = [], []
        for _ in range(n):
            k = d.below(4)
            if k == 0:
                r = d.below(5)
                steps.append(("fail", r))
                js.append({"if": {"==": [{"%%": [var, 5]}, r]}, "then": {"error": "bad", "code": -1 - r}})
            elif k == 1 and pools:
                p, key = d.choice(pools), d.choice(["a", "b"])
                steps.append(("del", p, key))
                js.append({"pool": p, "del": {"string": key}})
            elif cells and (k == 2 or not pools):
                c, v = d.choice(cells), next(codes)
                steps.append(("cell", c, v))
                js.append({"cell": c, "to": d.choice([{"+": [{"cell": c}, v]}, {"params": [{"old": "int"}], "ret": "int", "do": {"+": ["old", v]}}])})
            else:
                p, key, v = d.choice(pools), d.choice(["a", "b", "c"]), next(codes)
                steps.append(("pool", p, key, v))
                js.append({"pool": p, "path": [{"string": key}], "to": {"params": [{"old": "int"}], "ret": "int", "do": {"+": ["old", v]}}, "init": 0})
        return steps, js
    fold = d.chance(3, 4)
    act, jact = script(d.int(1, 5), "input")
    mrg, jmrg = script(d.int(1, 5), "tallyOne")
    ini = {n: d.smallint(9) if n in cells else {k: d.smallint(9) for k in d.sample(["a", "b", "c"], d.int(0, 3))} for n in cells + pools}
    doc = {"input": "int", "output": "int", "method": "fold" if fold else "map", "action": jact + [{"+": ["tally", "input"]} if fold else "input"],
           "cells": {c: {"type": "int", "init": ini[c], "rollback": roll[c]} for c in cells},
           "pools": {p: {"type": "int", "init": ini[p], "rollback": roll[p]} for p in pools}}
    if fold:
        doc["zero"] = 0
        doc["merge"] = jmrg + [{"+": ["tallyOne", "tallyTwo"]}]
    calls = [("merge", d.int(0, 30), d.int(0, 30)) if fold and d.chance(2, 5) else ("action", d.int(0, 30)) for _ in range(d.int(2, 9))]
    d.note([doc, calls])
    d.sut()
    kind, e = engines.compile_outcome(doc)
    if kind != "ok":
        raise Violation("a well-formed program is refused: %s %s" % (e, json.dumps(doc)))
    e.begin()
    state = {n: v if n in cells else dict(v) for n, v in ini.items()}
    tally = failed = fine = merges = 0
    for call in calls:
        keep = {n: v if n in cells else dict(v) for n, v in state.items()}
        want = None
        for st in (act if call[0] == "action" else mrg):
            if st[0] == "fail" and call[1] % 5 == st[1]:
                want = ("user", "bad", -1 - st[1])
                break
            elif st[0] == "del":
                state[st[1]].pop(st[2], None)
            elif st[0] == "cell":
                state[st[1]] += st[2]
            elif st[0] == "pool":
                state[st[1]][st[2]] = state[st[1]].get(st[2], 0) + st[3]
        if want is None:
            fine += 1
            if call[0] == "action" and fold:
                tally += call[1]
                want = ("ok", tally)
            elif call[0] == "action":
                want = ("ok", call[1])
            else:
                tally = call[1] + call[2]
                want = ("ok", tally)
        else:
            failed += 1
            for n in state:
                if roll[n]:
                    state[n] = keep[n]
        got = outcome(lambda: getattr(e, call[0])(*call[1:]))
        d.label("%s %s" % (call[0], got[0]))
        if got != want:
            raise Violation("%s gave %s, expected %s: %s after %s" % (call, show(got), show(want), json.dumps(doc), calls))
        now = {n: (e.cells if n in cells else e.pools)[n].value for n in state}
        if now != state:
            raise Violation("after %s state is %s, expected %s: %s calls %s" % (call, show(now), show(state), json.dumps(doc), calls))
        if fold and e.tally != tally:
            raise Violation("after %s the tally is %s, expected %s: %s calls %s" % (call, e.tally, tally, json.dumps(doc), calls))
    if failed and fine:
        d.nontrivial(json.dumps([doc, calls], sort_keys=True))


SUBS = [Sub("trees", trees, 900, 20000), Sub("messages", messages, 60, 300), Sub("programs", programs, 300, 6000), Sub("histories", histories, 500, 12000)]
