"""C12: shared state is shared, unshared is private, updates by function are atomic."""
import copy
import json
import os
import random
import signal
import sys
import threading
import time

import avt
import engines
import stateops
from engines import outcome
from pbt import Violation, show
from runner import Sub
import titus.genpy
from titus.genpy import PFAEngine, SharedState

CONFIRM = False
RULE = ("sharing: a generated document with shared and unshared cells and pools run as 2-4 engines (made together, or separately over one given shared state), a generated history of actions, "
        "each engine against a dictionary model in which shared items are one storage; schedules: 2-4 engines in as many threads with generated lists of operations (updates by inline, named "
        "and partially applied functions, plain reads, deletions, failing updates), the threads held inside the update functions and released in generated orders; the states committed must form "
        "one chain in which every update appears exactly once; non-trivial when two engines touched the same shared item; distinct = distinct documents and histories or schedules")
ASSUMPTIONS = ["threads are switched where an engine calls its log function, which the programs do inside every update function, at randomly chosen lines of titus' engine code, and wherever the interpreter happens to switch",
               "a thread that makes no progress for 20 seconds while nothing holds it counts as stuck"]
FACTOR = {"quick": 2, "thorough": 10}


# ---------------------------------------------------------------- sharing

class Names(object):
    """cells or pools of one engine: shared names live in a common dictionary"""

    def __init__(self, common, private, shared):
        self.common, self.private, self.shared = common, private, shared

    def where(self, n):
        return self.common if self.shared[n] else self.private

    def __getitem__(self, n):
        return self.where(n)[n]

    def __setitem__(self, n, v):
        self.where(n)[n] = v

    def __iter__(self):
        return iter(list(self.shared))

    def keys(self):
        return list(self.shared)

    def __len__(self):
        return len(self.shared)

    def items(self):
        return [(n, self[n]) for n in self.shared]


def sharing(d):
    doc = stateops.StateDoc(d)
    d.note(doc.doc)
    d.sut()
    signal.setitimer(signal.ITIMER_REAL, 30)
    n = d.int(2, 4)
    way = d.choice(["multiplicity", "given", "given-multi", "separate"])
    other = None
    alt = {}
    flags = {x: doc.shared[x] and way != "separate" for x in doc.shared}
    oflags = dict(flags)
    if way in ("given", "given-multi"):
        # another document over the same state: same names and types, other initial values, some items private there; the first to share an item provides its initial value
        other = copy.deepcopy(doc.doc)
        for c, (t, v) in doc.cells.items():
            alt[c] = doc.value(t)
            other["cells"][c]["init"] = avt.tojsonvalue(alt[c], t, doc.env)
        for x in oflags:
            if not doc.roll[x] and d.chance(1, 3):
                oflags[x] = not oflags[x]
                other["cells" if x in doc.cells else "pools"][x]["shared"] = oflags[x]
    first = copy.deepcopy(doc.doc)
    try:
        if way == "multiplicity":
            es = PFAEngine.fromJson(first, multiplicity=n)
            initial = [first] * n
        elif way == "separate":
            es = [PFAEngine.fromJson(copy.deepcopy(first))[0] for _ in range(n)]
            initial = [first] * n
        else:
            ss = SharedState()
            es, initial = [], []
            while len(es) < n:
                j = other if es and d.bool() else first
                k = 1 if way == "given" else d.int(1, 2)
                es.extend(PFAEngine.fromJson(copy.deepcopy(j), sharedState=ss, multiplicity=k))
                initial.extend([j] * k)
            n = len(es)
    except Exception as e:
        raise Violation("engines cannot be made (%s): %s: %s\nprogram: %s" % (way, type(e).__name__, e, json.dumps(doc.doc)))
    if len(es) != n:
        raise Violation("asked for %d engines, got %d" % (n, len(es)))
    env = doc.env
    common, pcommon = {}, {}
    runs, hist = [], []
    for e, j in zip(es, initial):
        fl = oflags if j is other else flags
        cells = {x: alt[x] if j is other else v for x, (t, v) in doc.cells.items()}
        pools = {x: v for x, (t, v) in doc.pools.items()}
        for x in fl:
            if fl[x]:
                if x in cells:
                    common.setdefault(x, cells[x])
                else:
                    pcommon.setdefault(x, pools[x])
        ref = stateops.RefState(doc, Names(common, cells, {x: fl[x] for x in cells}), Names(pcommon, pools, {x: fl[x] for x in pools}))
        r = stateops.StateRun(doc, e, ref)
        r.history = hist
        runs.append(r)
    hist.append(way)
    touched = set()
    for r in runs:
        r.compare()
    for _ in range(d.int(2, 8)):
        i = d.below(n)
        hist.append("engine %d" % i)
        runs[i].action(doc.gen_input())
        touched.add(i)
        for r in runs:
            r.compare()
    for r in runs:
        r.unchanged()
    if len(touched) > 1 and any(flags.values()):
        d.nontrivial(json.dumps([doc.doc, hist], sort_keys=True, default=str))


# ---------------------------------------------------------------- schedules

PLACES = (os.path.join("titus", "genpy.py"),)
ASTR = {"type": "array", "items": "string"}
KEYS = ["a", "b"]


class Shape(object):
    """type of a state item, the leaves that can be updated, and what an update does to the value"""

    def __init__(self, kind):
        self.kind = kind

    def type(self, tag):
        if self.kind == "list":
            return ASTR
        if self.kind == "map":
            return {"type": "map", "values": ASTR}
        return {"type": "record", "name": "R" + tag, "fields": [{"name": "p", "type": ASTR}, {"name": "q", "type": ASTR}]}

    def ref(self, tag):
        return "R" + tag if self.kind == "record" else self.type(tag)

    def leaves(self):
        return {"list": ["whole"], "map": ["whole", "leaf"], "record": ["whole", "p", "q"]}[self.kind]

    def initial(self, s):
        if self.kind == "list":
            return [s]
        if self.kind == "map":
            return {"a": [s], "b": []}
        return {"p": [s], "q": []}

    def path(self, leaf):
        if leaf == "whole":
            return []
        if leaf == "leaf":
            return ["op.leaf"]
        return [[leaf]]

    def body(self, leaf, tag, op):
        """expressions over the old value x"""
        if leaf != "whole" or self.kind == "list":
            return {"a.append": ["x", op]}
        if self.kind == "map":
            return {"map.map": ["x", {"params": [{"y": ASTR}], "ret": ASTR, "do": {"a.append": ["y", op]}}]}
        return {"attr": {"attr": "x", "path": [["p"]], "to": {"a.append": ["x.p", op]}}, "path": [["q"]], "to": {"a.append": ["x.q", op]}}

    def parent(self, value, leaf, op):
        """the value that this update turned into `value`, or None"""
        def strip(x):
            return x[:-1] if x and x[-1] == op["tag"] else None
        if self.kind == "list":
            return strip(value)
        out = dict(value)
        for k in value if leaf == "whole" else [op["leaf"] if leaf == "leaf" else leaf]:
            out[k] = strip(value[k])
            if out[k] is None:
                return None
        return out


class Sched(object):
    def __init__(self, d, n, free, rate=0):
        self.d, self.free = d, free
        self.rate = rate
        self.rng = [random.Random(d.below(1 << 16)) for i in range(n)] if rate else None
        self.cv = threading.Condition()
        self.state = {i: "run" for i in range(n)}
        self.trace = []
        self.order = None           # with an order, a thread held at a line goes last and the others run on
        if rate and d.chance(3, 4):
            self.order = d.shuffle(list(range(n)))

    def park(self, i):
        if i in self.free:
            return
        with self.cv:
            self.state[i] = "park"
            self.cv.notify_all()
            while self.state[i] == "park":
                self.cv.wait()

    def tracer(self, i):
        """a trace function that holds the thread at some of the lines it executes in titus (and in the code titus generated)"""
        rng, rate = self.rng[i], self.rate

        def hold(p):
            def local(frame, event, arg):
                if event == "line" and rng.random() < p:
                    if self.order is not None:
                        self.order.remove(i)
                        self.order.append(i)
                    self.park(i)
                return local
            return local
        inside, outside = hold(rate), hold(rate / 50)

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if f.startswith("<") or f.endswith(PLACES):
                # most often in the methods of cells and pools
                return inside if isinstance(frame.f_locals.get("self"), titus.genpy.PersistentStorageItem) else outside
            return None
        return trace

    def done(self, i):
        with self.cv:
            self.state[i] = "done"
            self.cv.notify_all()

    def run(self):
        """-> True when all threads ended"""
        while True:
            with self.cv:
                t0 = time.time()
                while True:
                    parked = sorted(i for i, s in self.state.items() if s == "park")
                    running = [i for i, s in self.state.items() if s == "run"]
                    if not running:
                        break
                    if parked and time.time() - t0 > 0.008:
                        break
                    if time.time() - t0 > 20:
                        return False
                    self.cv.wait(0.004 if parked else 0.5)
                if not parked and not running:
                    return True
                i = self.d.choice(parked) if self.order is None else min(parked, key=self.order.index)
                self.trace.append(i)
                self.state[i] = "run"
                self.cv.notify_all()


def program(d):
    """(document, shape of the cell, shape of the pool items)"""
    cs, ps = Shape(d.choice(["list", "map", "record"])), Shape(d.choice(["list", "map", "record"]))
    op = {"type": "record", "name": "Op", "fields": [{"name": x, "type": "string"} for x in ("kind", "key", "leaf", "tag", "fail")]}
    # the types are declared in the input
    fields = [{"name": "ops", "type": {"type": "array", "items": op}}]
    for tag, s in (("c", cs), ("p", ps)):
        fields.append({"name": "decl" + tag, "type": {"type": "array", "items": s.type(tag)}})
    fcns = {}

    def updater(leaf, shape, tag):
        t = shape.ref(tag) if leaf == "whole" else ASTR
        where = d.choice(["before", "after", "both"])

        def do(o, f):
            seq = []
            if where != "after":
                seq.append({"log": ["x"], "namespace": "hold"})
            seq.append({"if": {"==": [f, ["user"]]}, "then": [{"error": "failing", "code": -3}]})
            seq.append({"if": {"==": [f, ["library"]]}, "then": [{"a.head": {"type": ASTR, "value": []}}]})
            seq.append({"let": {"z": shape.body(leaf, tag, o)}})
            if where != "before":
                seq.append({"log": ["z"], "namespace": "hold"})
            seq.append({"if": {"==": [f, ["late"]]}, "then": [{"error": "failing late", "code": -4}]})
            seq.append("z")
            return seq
        how = d.choice(["inline", "fill"])
        if how == "inline":
            return {"params": [{"x": t}], "ret": t, "do": do("op.tag", "op.fail")}
        name = "f%d" % len(fcns)
        fcns[name] = {"params": [{"tag": "string"}, {"x": t}, {"fail": "string"}], "ret": t, "do": do("tag", "fail")}
        return {"fcn": "u." + name, "fill": {"tag": "op.tag", "fail": "op.fail"}}

    conds = []

    def case(kind, then):
        conds.append({"if": {"==": ["op.kind", [kind]]}, "then": then})
    for leaf in cs.leaves():
        j = {"cell": "c", "to": updater(leaf, cs, "c")}
        if cs.path(leaf):
            j["path"] = cs.path(leaf)
        case("c-" + leaf, [{"log": [{"string": "op"}, "op", j], "namespace": "new"}])
    for leaf in ps.leaves():
        j = {"pool": "p", "path": ["op.key"] + ps.path(leaf), "to": updater(leaf, ps, "p"),
             "init": {"type": ps.ref("p"), "value": ps.initial("fresh")}}
        case("p-" + leaf, [{"log": [{"string": "op"}, "op", j], "namespace": "new"}])
    case("mine", [{"log": [{"string": "op"}, "op", {"cell": "m", "to": updater("whole", Shape("list"), "m")}], "namespace": "new"}])
    case("cget", [{"log": [{"string": "op"}, "op", {"cell": "c"}], "namespace": "get"}])
    case("pget", [{"ifnotnull": {"v": {"try": [{"pool": "p", "path": ["op.key"]}]}}, "then": [{"log": [{"string": "op"}, "op", "v"], "namespace": "get"}]}])
    case("pdel", [{"pool": "p", "del": "op.key"}])
    step = [{"log": [["op"]], "namespace": "hold"}, {"cond": conds}] if d.bool() else [{"cond": conds}]
    if d.bool():
        step = [{"try": step + [0]}]
    doc = {"name": "Threads", "input": {"type": "record", "name": "In", "fields": fields}, "output": "null",
           "cells": {"c": {"type": cs.ref("c"), "init": cs.initial("start"), "shared": True}, "m": {"type": ASTR, "init": []}},
           "pools": {"p": {"type": ps.ref("p"), "init": {"k": ps.initial("start")}, "shared": True}},
           "action": [{"foreach": "op", "in": "input.ops", "do": step}, None]}
    if fcns:
        doc["fcns"] = fcns
    return doc, cs, ps


def schedules(d):
    threads(d, 0)


def lines(d):
    rate = d.choice([0.05, 0.1, 0.2])
    # after a crash of the interpreter: without tracing
    threads(d, 0 if os.environ.get("VERIF_RETRY") else rate)


def threads(d, rate):
    doc, cs, ps = program(d)
    n = d.int(2, 4)
    dels = d.chance(1, 3)
    kinds = ["c-" + x for x in cs.leaves()] * 2 + ["p-" + x for x in ps.leaves()] * 2 + ["mine", "cget", "pget"]
    if dels:
        kinds += ["pdel"] * 2
    keys = d.choice([["k"], ["n"], ["k", "n"], ["k", "n", "o"]])
    serial = [0]

    def genop():
        serial[0] += 1
        return {"kind": d.choice(kinds), "key": d.choice(keys), "leaf": d.choice(KEYS), "tag": "t%d" % serial[0], "fail": d.weighted([(8, "no"), (1, "user"), (1, "library"), (1, "late"), (1, "path")])}
    plan = [[[genop() for _ in range(d.int(1, 3))] for _ in range(d.int(1, 3))] for _ in range(n)]
    for th in plan:
        for ops in th:
            for op in ops:
                if op["fail"] == "path":
                    if op["kind"].endswith("-leaf"):
                        op["leaf"] = "zz"
                    else:
                        op["fail"] = "no"
    d.note({"doc": doc, "plan": plan})
    d.sut()
    if d.bool():
        es = PFAEngine.fromJson(copy.deepcopy(doc), multiplicity=n)
    else:
        ss = SharedState()
        es = [PFAEngine.fromJson(copy.deepcopy(doc), sharedState=ss)[0] for _ in range(n)]
    sched = Sched(d, n, [i for i in range(n) if d.chance(1, 6)], rate)
    events = [[] for _ in range(n)]
    problems = []

    def logger(i):
        def log(message, namespace):
            if namespace == "hold":
                sched.park(i)
            else:
                events[i].append((namespace, message[1], copy.deepcopy(message[2])))
        return log

    def thread(i):
        e = es[i]
        e.log = logger(i)
        try:
            sched.park(i)
            if rate:
                sys.settrace(sched.tracer(i))
            e.begin()
            for ops in plan[i]:
                # the members of a union-free record go in as they are
                got = outcome(e.action, {"ops": copy.deepcopy(ops), "declc": [], "declp": []})
                events[i].append(("action", None, got))
            e.end()
            sys.settrace(None)
        except BaseException as err:
            import traceback
            problems.append("engine %d: %s" % (i, traceback.format_exc()))
        finally:
            sched.done(i)

    def fail(what):
        raise Violation("%s\nschedule: %s\noperations: %s\nevents: %s\nprogram: %s" % (what, sched.trace, show(plan, 3000), show(events, 4000), json.dumps(doc)))
    ths = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(n)]
    for t in ths:
        t.start()
    if not sched.run():
        fail("the engines are stuck: %s" % sched.state)
    if problems:
        fail(problems[0])
    check(fail, doc, cs, ps, plan, events, es)
    # every engine still works on every item
    for i, e in enumerate(es):
        sched.free = list(range(n))
        ops = []
        for kind in ("c-" + cs.leaves()[-1], "mine", "p-" + ps.leaves()[0]):
            serial[0] += 1
            ops.append({"kind": kind, "key": keys[0], "leaf": "a", "tag": "t%d" % serial[0], "fail": "no"})
        plan[i].append(ops)
        res = []

        def last():
            try:
                res.append(outcome(e.action, {"ops": copy.deepcopy(ops), "declc": [], "declp": []}))
            except BaseException as err:
                res.append(err)
        t = threading.Thread(target=last, daemon=True)
        t.start()
        t.join(20)
        if not res:
            fail("engine %d is stuck after the others have finished" % i)
        if res[0] != ("ok", None):
            fail("engine %d fails after the others have finished: %s" % (i, show(res[0])))
    check(fail, doc, cs, ps, plan, events, es)
    if len(set(sched.trace)) > 1:
        d.nontrivial(json.dumps([doc, plan, sched.trace], sort_keys=True))


def frozen(x):
    return json.dumps(x, sort_keys=True)


def check(fail, doc, cs, ps, plan, events, es):
    # 1. what each engine reported must correspond to its operations in order
    trying = any("try" in x for x in doc["action"][0]["do"])
    ndel = {}
    for i, th in enumerate(plan):
        want = []
        for ops in th:
            end = ("ok", None)
            for op in ops:
                k = op["kind"]
                if k == "pdel":
                    ndel[op["key"]] = ndel.get(op["key"], 0) + 1
                if k in ("pdel",):
                    continue
                if k in ("cget", "pget"):
                    want.append(("get", op))
                elif op["fail"] == "no":
                    want.append(("new", op))
                elif not trying:
                    end = {"user": ("user", "failing", -3), "late": ("user", "failing late", -4), "library": ("err", 15020), "path": ("err", 2007 if k.startswith("c-") else 2011)}[op["fail"]]
                    break
            want.append(("action", end))
        got = [(a, b if a != "action" else c) for a, b, c in events[i]]
        if got and len([x for x in got if x[0] == "action"]) < len(th):
            got.append(("action", ("ok", None)))     # the last action is judged by the caller
        p = q = 0
        while q < len(want):
            if p < len(got) and got[p] == want[q]:
                p += 1
            elif want[q][0] == "get" and want[q][1]["kind"] == "pget":
                pass                                 # there was nothing at that key
            else:
                fail("engine %d: expected %s next, saw %s" % (i, show(want[q]), show(got[p:p + 1])))
            q += 1
        if p < len(got):
            fail("engine %d: unexpected %s" % (i, show(got[p])))
    # 2. shared items: the states committed form chains
    items = {}
    for i in range(len(plan)):
        for order, (ns, op, value) in enumerate(events[i]):
            if ns == "action" or op["kind"] == "mine":
                continue
            item = ("c", "") if op["kind"][0] == "c" else ("p", op["key"])
            items.setdefault(item, []).append((i, order, ns, op, value))
    for e in es[1:]:
        if frozen(e.cells["c"].value) != frozen(es[0].cells["c"].value) or frozen(e.pools["p"].value) != frozen(es[0].pools["p"].value):
            fail("engines see different shared state: %s and %s; %s and %s" % (show(es[0].cells["c"].value), show(e.cells["c"].value), show(es[0].pools["p"].value), show(e.pools["p"].value)))
    final = es[0].pools["p"].value
    for k in set(final) | {"k"}:
        items.setdefault(("p", k), [])
    items.setdefault(("c", ""), [])
    for item, seen in items.items():
        shape = cs if item[0] == "c" else ps
        start = frozen(shape.initial("start")) if item in (("c", ""), ("p", "k")) else None
        fresh = frozen(shape.initial("fresh")) if item[0] == "p" else None
        dels = ndel.get(item[1], 0) if item[0] == "p" else 0
        states = {}
        parents = {}
        for i, order, ns, op, value in seen:
            if ns == "new":
                v = frozen(value)
                if v in states:
                    fail("two updates of %s gave the same state %s" % (item, v))
                parent = shape.parent(value, op["kind"][2:], op)
                if parent is None:
                    fail("update %s of %s gave %s" % (op, item, v))
                states[v] = frozen(parent)
                parents[frozen(parent)] = parents.get(frozen(parent), 0) + 1
        for p, c in parents.items():
            room = 0
            if p in states or p == start:
                room += 1
            if p == fresh:
                room += dels + (0 if start else 1)
            if c > room:
                fail("%d updates of %s started from the same state %s: some are lost" % (c, item, p))
        if item[0] == "c":
            end = frozen(es[0].cells["c"].value)
        else:
            end = frozen(final[item[1]]) if item[1] in final else None
        if end is None:
            if dels == 0 and (start or states):
                fail("%s is gone" % (item,))
        else:
            if end not in states and end != start:
                fail("%s ends as %s, which no update gave" % (item, end))
            if end in parents:
                fail("%s ends as %s although it was updated after that" % (item, end))
            if dels == 0:
                loose = [s for s in list(states) + ([start] if start else []) if s not in parents]
                if loose != [end]:
                    fail("the updates of %s are not all part of its final state %s: %s" % (item, end, loose))
        depth = {}

        def deep(s):
            k = 0
            while s in states:
                s, k = states[s], k + 1
            return k
        last = {}
        for i, order, ns, op, value in sorted(seen, key=lambda x: (x[0], x[1])):
            v = frozen(value)
            if ns == "get" and v not in states and v != start:
                fail("engine %d read %s from %s, which was never its state" % (i, v, item))
            if dels == 0:
                if deep(v) < last.get(i, 0):
                    fail("engine %d saw %s in %s after it had seen a later state" % (i, v, item))
                last[i] = deep(v)
    # 3. private items
    for i, e in enumerate(es):
        want = [op["tag"] for ns, op, value in events[i] if ns == "new" and op["kind"] == "mine"]
        if e.cells["m"].value != want:
            fail("the private cell of engine %d holds %s, expected %s" % (i, show(e.cells["m"].value), show(want)))


SUBS = [Sub("sharing", sharing, 500, 15000), Sub("schedules", schedules, 400, 15000), Sub("lines", lines, 250, 8000)]
