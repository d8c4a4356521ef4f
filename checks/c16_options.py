"""C16: engine options, host overrides and timeouts."""
import copy
import json
import time

import engines
from engines import outcome
from pbt import Violation, show
from runner import Sub
from titus.genpy import PFAEngine
from titus.errors import PFAInitializationException

RULE = ("timeouts: generated begin, action, end and merge routines made of nested loops of every kind, callbacks, user functions, try blocks and slow library functions, whose steps advance a clock "
        "controlled by the harness; limits from the document and from the host in every combination; the trace of the engine must be a prefix of the trace of the reference interpreter, cut by a timeout "
        "exactly if the limit of that routine has passed and loops remain; invalid: options that are not integral numbers; realtime: endless loops with the machine's clock; "
        "non-trivial when a routine was stopped or ran longer than another routine's limit; distinct = distinct documents, options and inputs")
ASSUMPTIONS = ["the clock seen by titus is replaced through the time module; if titus does not read it there, only the realtime sub-check says something about timeouts",
               "a routine may finish the iterations it is in the middle of, but starts no further ones in any loop around"]
FACTOR = {"quick": 3, "thorough": 12}


class Clock(object):
    names = ["time", "monotonic", "perf_counter", "process_time"]

    def __init__(self):
        self.now = 1000000.0
        self.reads = 0

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.names}

        def read():
            self.reads += 1
            return self.now
        for n in self.names:
            setattr(time, n, read)
        return self

    def __exit__(self, *args):
        for n, f in self.old.items():
            setattr(time, n, f)

    def tick(self, ms):
        self.now += ms / 1000.0


class Stop(Exception):
    pass


class Fail(Exception):
    pass


class Routine(object):
    """statements with a JSON form and a reference run that yields events; `depth` is the deepest nesting of loops"""

    def __init__(self, d, fcns, forever):
        self.d, self.fcns = d, fcns
        self.n = 0
        self.depth = 0
        self.forever = forever
        self.budget = 14
        self.body = [self.stmt(0, False) for _ in range(d.int(1, 4))]

    def fresh(self):
        self.n += 1
        return "v%d_%d" % (len(self.fcns), self.n)

    def tick(self):
        k = 2 * self.d.choice([1, 2, 3, 5, 10, 50])

        def run():
            yield ("tick", k)
        return {"log": [{"string": "tick"}, k]}, run

    def seq(self, depth, trying, it=True, lo=1):
        items = [self.stmt(depth, trying) for _ in range(self.d.int(lo, 3))]
        js = ([{"log": [{"string": "it"}]}] if it else []) + [j for j, f in items]

        def run():
            if it:
                yield ("it", 0)
            for j, f in items:
                for e in f():
                    yield e
        return js, run

    def stmt(self, depth, trying):
        d = self.d
        self.budget -= 1
        kinds = ["tick", "tick"]
        if depth < 4 and self.budget > 0:
            kinds += ["foreach", "for", "while", "until", "forkey", "map", "filter", "fold", "sort", "user", "if", "do", "try", "call"]
        if trying:
            kinds += ["error"]
        if self.budget > 0 and d.chance(1, 8):
            kinds += ["perm"]
        if self.forever and depth < 2:
            kinds += ["forever"]
        k = d.choice(kinds)
        if k == "tick":
            return self.tick()
        if k == "error":
            def run():
                raise Fail()
                yield
            return {"error": "oops"}, run
        if k == "perm":
            n = 7

            def run():
                yield ("perm", 0)
            v = self.fresh()
            return {"do": [{"let": {v: {d.choice(["a.permutations"]): [{"type": {"type": "array", "items": "int"}, "value": list(range(n))}]}}}, {"log": [{"string": "perm"}]}]}, run
        if k == "forever":
            self.forever = False
            j, f = self.tick()
            self.depth = max(self.depth, depth + 1)
            js, fs = self.seq(depth + 1, trying)

            def run():
                while True:
                    for e in f():
                        yield e
                    for e in fs():
                        yield e
            return d.choice([{"while": True, "do": [j] + js}, {"do": [j] + js, "until": {"==": [1, 2]}}]), run
        if k == "if":
            js, f = self.seq(depth, trying, it=False)
            yes = d.bool()

            def run():
                if yes:
                    for e in f():
                        yield e
            return {"if": yes, "then": js}, run
        if k == "do":
            js, f = self.seq(depth, trying, it=False)
            return {"do": js}, f
        if k == "try":
            js, f = self.seq(depth, True, it=False)

            def run():
                try:
                    for e in f():
                        yield e
                except Fail:
                    pass
            j = {"try": js + [0]}
            if d.bool():
                j["filter"] = d.choice([["oops"], ["oops", "exceeded timeout"], [-1, 0, 1, "oops"]])
            return j, run
        if k == "call":
            js, f = self.seq(depth, trying, it=False)
            name = "f%d" % len(self.fcns)
            self.fcns[name] = {"params": [], "ret": "int", "do": js + [1]}
            return {"u." + name: []}, f
        # loops
        self.depth = max(self.depth, depth + 1)
        count = d.choice([0, 1, 2, 2, 3, 5])
        js, f = self.seq(depth + 1, trying)
        if k in ("map", "filter", "fold", "sort", "user"):
            # library functions that call back; their own iterations are no loop iterations
            js, f = self.seq(depth + 1, trying, it=False)
            arr = {"type": {"type": "array", "items": "int"}, "value": list(range(count))}
            v = self.fresh()

            def run():
                for _ in range(count):
                    for e in f():
                        yield e
            if k == "map":
                return {"a.map": [arr, {"params": [{v: "int"}], "ret": "int", "do": js + [v]}]}, run
            if k == "filter":
                return {"a.filter": [arr, {"params": [{v: "int"}], "ret": "boolean", "do": js + [{"==": [v, 1]}]}]}, run
            if k == "fold":
                return {"a.fold": [arr, 0, {"params": [{v: "int"}, {v + "b": "int"}], "ret": "int", "do": js + [{"+": [v, v + "b"]}]}]}, run
            name = "f%d" % len(self.fcns)
            self.fcns[name] = {"params": [{v: "int"}], "ret": "int", "do": js + [v]}
            if k == "sort":
                return {"a.mapWithIndex": [arr, {"params": [{v + "i": "int"}, {v + "x": "int"}], "ret": "int", "do": {"u." + name: [v + "x"]}}]}, run
            return {"a.map": [arr, {"fcn": "u." + name}]}, run

        def run():
            for _ in range(count):
                for e in f():
                    yield e
        v = self.fresh()
        if k == "foreach":
            j = {"foreach": v, "in": {"type": {"type": "array", "items": "int"}, "value": list(range(count))}, "do": js}
            if d.bool():
                j["seq"] = d.bool()
            return j, run
        if k == "for":
            return {"for": {v: 0}, "while": {"<": [v, count]}, "step": {v: {"+": [v, 1]}}, "do": js}, run
        if k == "forkey":
            return {"forkey": v, "forval": v + "x", "in": {"type": {"type": "map", "values": "int"}, "value": {"k%d" % i: i for i in range(count)}}, "do": js}, run
        if k == "while":
            return {"do": [{"let": {v: 0}}, {"while": {"<": [v, count]}, "do": js + [{"set": {v: {"+": [v, 1]}}}]}]}, run
        count = max(count, 1)

        def run1():
            for _ in range(count):
                for e in f():
                    yield e
        return {"do": [{"let": {v: 0}}, {"do": js + [{"set": {v: {"+": [v, 1]}}}], "until": {"==": [v, count]}}]}, run1

    def json(self):
        return [j for j, f in self.body]

    def trace(self, limit):
        """(events, error?, complete?); what cannot be reached any more is left out"""
        out, elapsed, late = [], 0, 0
        try:
            for j, f in self.body:
                for e in f():
                    out.append(e)
                    elapsed += e[1]
                    if limit is not None and elapsed > limit:
                        late += 1
                        if late > 120:
                            return out, False, False
                    if len(out) > 5000:
                        return out, False, False
        except Fail:
            return out, True, True
        return out, False, True


NAMES = ["timeout", "timeout.begin", "timeout.action", "timeout.end"]


def genoptions(d):
    out = {}
    for n in NAMES:
        if d.chance(1, 3):
            out[n] = d.weighted([(1, -1), (1, 0), (2, 1), (2, 5), (2, 15), (2, 51), (1, 201), (1, 1001)])
    if d.chance(1, 6):
        out["something.else"] = d.choice([1, "x", None])
    return out


def limits(doc, host):
    both = dict(doc or {})
    both.update(host or {})
    out = {}
    for r in ("begin", "action", "end", "merge"):
        v = both.get("timeout." + r, both.get("timeout", -1)) if r != "merge" else both.get("timeout", -1)
        out[r] = v if v > 0 else None
    return out


def timeouts(d):
    docopts = genoptions(d) if d.chance(3, 4) else None
    host = genoptions(d) if d.chance(3, 4) else None
    lim = limits(docopts, host)
    fcns = {}
    rout = {r: Routine(d, fcns, lim[r] is not None and d.chance(1, 3)) for r in ("begin", "action", "end", "merge")}
    method = d.choice(["map", "fold", "emit"])
    doc = {"input": "int", "output": "int", "method": method,
           "begin": rout["begin"].json(), "end": rout["end"].json(), "cells": {"n": {"type": "int", "init": 0}},
           "action": rout["action"].json() + [{"cell": "n", "to": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 1]}}}]}
    if method == "fold":
        doc["zero"] = 0
        doc["action"].append({"+": ["tally", "input"]})
        doc["merge"] = rout["merge"].json() + [{"+": ["tallyOne", "tallyTwo"]}]
    elif method == "map":
        doc["action"].append({"+": ["input", 1]})
    else:
        doc["action"].append({"emit": ["input"]})
    if fcns:
        doc["fcns"] = fcns
    if docopts is not None:
        doc["options"] = docopts
    d.note([doc, host])
    d.sut()
    e = PFAEngine.fromJson(copy.deepcopy(doc), options=copy.deepcopy(host))[0]
    clock = Clock()
    got = []
    emitted = []

    def log(message, namespace):
        what = message[0]
        k = message[1] if what == "tick" else 0
        got.append((what, k))
        clock.tick(k)
        if len(got) > 6000:
            raise Stop()
    e.log = log
    if method == "emit":
        e.emit = lambda x: emitted.append(x)
    nt = [False]

    def step(r, call, value):
        """value(): the result when nothing stops it"""
        del got[:]
        L = lim[r]
        want, failed, complete = rout[r].trace(L)
        before = clock.reads
        with clock:
            try:
                res = outcome(call)
            except Stop:
                res = ("endless",)
        elapsed, over = 0, None
        for i, (w, k) in enumerate(got):
            elapsed += k
            if L is not None and elapsed > L and over is None:
                over = i

        def fail(what):
            raise Violation("%s: %s\nlimits: %s (document %s, host %s)\nevents: %s\nexpected: %s\nresult %s\nprogram: %s" % (
                r, what, lim, docopts, host, show(got, 1500), show(want, 1500), show(res), json.dumps(doc)))
        if L is not None and clock.reads == before:
            # this titus reads its clock from somewhere else
            d.label("clock not seen")
            return False
        if got != want[:len(got)]:
            fail("the steps differ")
        if res[0] == "timeout":
            if over is None:
                fail("stopped after %d ms although its limit is %s" % (elapsed, L))
            nt[0] = True
        elif complete and len(got) == len(want):
            if failed:
                raise AssertionError("an error outside of try")
            if res != ("ok", value()):
                fail("gave %s instead of %s" % (show(res), show(value())))
        else:
            fail("ended early with %s" % show(res))
        if over is not None:
            late = [w for w, k in got[over + 1:]]
            if late.count("it") > rout[r].depth or "perm" in late:
                fail("went on for %d iterations after its limit" % late.count("it"))
        if res[0] != "timeout" and L is None and elapsed > min([x for x in lim.values() if x] + [10 ** 9]):
            nt[0] = True
        return res[0] == "timeout"
    state = {"n": 0, "tally": 0}
    step("begin", e.begin, lambda: None)
    for _ in range(d.int(1, 3)):
        x = d.int(-5, 100)
        k = len(emitted)
        stopped = step("action", lambda: e.action(x), lambda: {"map": x + 1, "fold": state["tally"] + x, "emit": None}[method])
        if not stopped and got == rout["action"].trace(lim["action"])[0]:
            state["n"] += 1
            state["tally"] += x
            if method == "emit" and emitted[k:] != [x]:
                raise Violation("emitted %s instead of %s: %s" % (emitted[k:], [x], json.dumps(doc)))
        elif emitted[k:]:
            raise Violation("a stopped action emitted %s: %s" % (emitted[k:], json.dumps(doc)))
        if e.cells["n"].value != state["n"]:
            raise Violation("after an action the cell holds %s, expected %s: %s" % (e.cells["n"].value, state["n"], json.dumps(doc)))
    if method == "fold":
        a, b = d.int(-5, 5), d.int(-5, 5)
        step("merge", lambda: e.merge(a, b), lambda: a + b)
    step("end", e.end, lambda: None)
    if nt[0]:
        d.nontrivial(json.dumps([doc, host], sort_keys=True))


def invalid(d):
    bad = d.choice([2.5, "abc", "", None, [], {}, [5], {"a": 1}, "1.5", float("inf"), float("nan")])
    name = d.choice(NAMES)
    others = {n: d.int(1, 1000) for n in NAMES if n != name and d.bool()}
    where = d.choice(["doc", "host", "hidden"])
    opts = dict(others, **{name: bad})
    doc = {"input": "int", "output": "int", "action": "input"}
    host = None
    if where == "host":
        host = opts
    else:
        doc["options"] = opts
        if where == "hidden":
            host = {name: 7}
    d.note([doc, host])
    d.sut()
    text = json.dumps(doc)
    try:
        e = PFAEngine.fromJson(text, options=host)[0]
    except PFAInitializationException as err:
        if where == "hidden":
            raise Violation("an option is refused although the host overrides it: %s %s: %s" % (text, host, err))
    else:
        if where != "hidden":
            raise Violation("option %s = %r is accepted (%s)" % (name, bad, where))
    d.nontrivial(json.dumps([doc, host]))


def realtime(d):
    """with the machine's own clock: endless routines are stopped, short ones are not"""
    limit = d.choice([20, 50, 100])
    loop = d.choice([{"while": True, "do": ["input"]}, {"do": ["input"], "until": {"==": [1, 2]}}, {"for": {"i": 0}, "while": {">=": ["i", 0]}, "step": {"i": {"%": [{"+": ["i", 1]}, 10]}}, "do": ["i"]}])
    if d.bool():
        loop = {"a.map": [{"type": {"type": "array", "items": "int"}, "value": [1]}, {"params": [{"x": "int"}], "ret": "int", "do": [{"try": [json.loads(json.dumps(loop).replace('"input"', '"x"')), 1]}, "x"]}]}
    doc = {"input": "int", "output": "int", "action": [{"if": {">": ["input", 0]}, "then": [loop]}, "input"]}
    where = d.bool()
    name = d.choice(["timeout", "timeout.action"])
    if where:
        doc["options"] = {name: limit}
    d.note([doc, limit])
    d.sut()
    e = PFAEngine.fromJson(doc, options=None if where else {name: limit})[0]
    for x in (1, 0, 2, -1):
        t0 = time.time()
        got = outcome(e.action, x)
        if got != (("timeout",) if x > 0 else ("ok", x)):
            raise Violation("action(%d) gave %s: %s" % (x, show(got), json.dumps(doc)))
        if x > 0 and (time.time() - t0) * 1000 < limit * 0.99:
            raise Violation("stopped after %g ms although the limit is %d: %s" % ((time.time() - t0) * 1000, limit, json.dumps(doc)))
    d.nontrivial(json.dumps(doc))


SUBS = [Sub("timeouts", timeouts, 1000, 30000), Sub("invalid", invalid, 60, 500), Sub("realtime", realtime, 16, 100)]
