"""C11: a snapshot captures the complete state of an engine."""
import copy
import json

import avt
import engines
import stateops
from avt import MAP, tojsonvalue
from pbt import Violation, show
from runner import Sub
from progs import Program, RefEngine
from drive import pair, Pair
from titus.genpy import PFAEngine
from titus.pfaast import EngineConfig
from titus.reader import jsonToAst

RULE = ("ops: a generated document with cells and pools of nested types, driven through a generated history; before, between and after the actions (failing ones included) snapshots are "
        "taken, read as JSON, compared with a model of the state, made into new engines (from text, syntax tree or another snapshot), and original and restored engines continue on the "
        "same inputs, each against the model; all earlier snapshots are read again at the end; programs: the same for generated map, emit and fold programs; "
        "non-trivial when the state at the snapshot differed from the initial state; distinct = distinct documents and histories")
ASSUMPTIONS = ["the tally of a fold engine and its action counters are not part of its cells and pools: a restored fold engine starts at the zero tally",
               "non-finite doubles are written in Python's JSON dialect (NaN, Infinity)"]
FACTOR = {"quick": 3, "thorough": 6}


def same(a, b):
    """equality of JSON values, except that NaN equals NaN and 1 equals 1.0 (but not true)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b or (a != a and b != b)


def check(engine, cells, pools, ctypes, ptypes, env, fail, before):
    """take a snapshot and compare it with the model; -> (snapshot, its text)"""
    try:
        snap = engine.snapshot()
        text = snap.toJson(lineNumbers=False)
        doc = json.loads(text)
    except Exception as e:
        fail("the snapshot cannot be taken or written: %s: %s" % (type(e).__name__, e))
    if not isinstance(snap, EngineConfig):
        fail("the snapshot is not a PFA document")
    for n, t in ctypes.items():
        want = tojsonvalue(cells[n], t, env)
        got = doc["cells"][n]["init"]
        if not same(got, want):
            fail("in the snapshot cell %s (type %s) starts with %s, but it holds %s" % (n, t, show(got), show(want)))
    for n, t in ptypes.items():
        want = tojsonvalue(pools[n], MAP(t), env)
        got = doc["pools"][n]["init"]
        if not same(got, want):
            fail("in the snapshot pool %s (type %s) starts with %s, but it holds %s" % (n, t, show(got), show(want)))

    def rest(j):
        j = copy.deepcopy(j)
        for section in ("cells", "pools"):
            for x in j.get(section, {}).values():
                x.pop("init")
        return j
    if not same(rest(doc), rest(before)):
        fail("the snapshot differs from the document outside of the initial values: %s instead of %s" % (show(rest(doc), 3000), show(rest(before), 3000)))
    return snap, text


def restore(d, snap, text, fail):
    how = d.choice(["text", "ast", "again", "parsed"])
    try:
        if how == "text":
            return PFAEngine.fromJson(text)[0]
        if how == "parsed":
            return PFAEngine.fromJson(json.loads(text))[0]
        if how == "ast":
            return PFAEngine.fromAst(snap)[0]
        return PFAEngine.fromAst(PFAEngine.fromAst(jsonToAst(text))[0].snapshot())[0]
    except Exception as e:
        fail("an engine cannot be made from the snapshot (%s): %s: %s\nsnapshot: %s" % (how, type(e).__name__, e, text[:3000]))


def ops(d):
    doc = stateops.StateDoc(d)
    d.note(doc.doc)
    r = stateops.run(d, doc)
    d.sut()
    before = json.loads(r.engine.config.toJson(lineNumbers=False))
    ctypes = {n: t for n, (t, _) in doc.cells.items()}
    ptypes = {n: t for n, (t, _) in doc.pools.items()}
    snaps = []
    changed = False
    for i in range(d.int(1, 4)):
        if i or d.chance(1, 4):
            if i == 0 or d.chance(2, 3):
                r.history.append("snapshot")
                snap, text = check(r.engine, r.ref.cells, r.ref.pools, ctypes, ptypes, doc.env, r.fail, before)
                snaps.append((snap, text))
                changed = changed or i > 0 and bool(r.ref.logged)
                r.compare()
                other = stateops.StateRun(doc, restore(d, snap, text, r.fail), stateops.RefState(doc, dict(r.ref.cells), dict(r.ref.pools)))
                other.history = ["restored after"] + r.history
                other.compare()
                for _ in range(d.int(1, 2)):
                    inp = doc.gen_input()
                    other.action(inp)
                    r.action(inp)
                other.unchanged()
        r.action(doc.gen_input())
    for snap, text in snaps:
        if snap.toJson(lineNumbers=False) != text:
            r.fail("a snapshot changed after it was taken: %s became %s" % (text, snap.toJson(lineNumbers=False)))
    if json.loads(r.engine.config.toJson(lineNumbers=False)) != before and not same(json.loads(r.engine.config.toJson(lineNumbers=False)), before):
        r.fail("the engine's own document changed")
    r.unchanged()
    if changed:
        d.nontrivial(json.dumps([doc.doc, r.history], sort_keys=True, default=str))


def programs(d):
    p = Program(d, maxcells=3, depth=3)
    d.note(p.doc)
    q = pair(p)
    d.sut()
    before = json.loads(q.engine.config.toJson(lineNumbers=False))
    ctypes = {n: t for n, (t,) in p.g.cells.items()}
    ptypes = {n: t for n, (t,) in p.g.pools.items()}
    q.begin()
    nt = False
    for i in range(d.int(1, 4)):
        if i and d.bool():
            q.history.append("snapshot")
            snap, text = check(q.engine, q.ref.rt.cells, q.ref.rt.pools, ctypes, ptypes, p.env, q.fail, before)
            q.state("snapshot")
            e = restore(d, snap, text, q.fail)
            ref = RefEngine(p, e.config.name, e.instance, cells=dict(q.ref.rt.cells), pools={n: dict(v) for n, v in q.ref.rt.pools.items()})
            o = Pair(p, e, ref)
            o.history = ["restored after"] + q.history
            o.state("restoring")
            nt = nt or bool(ctypes or ptypes)
            for _ in range(d.int(1, 2)):
                x = p.gen_input()
                o.action(x)
                q.action(x)
            if d.bool():
                o.end()
        q.action(p.gen_input())
    q.end()
    if nt:
        d.nontrivial(json.dumps([p.doc, q.history], sort_keys=True, default=str))


SUBS = [Sub("ops", ops, 700, 15000), Sub("programs", programs, 200, 4000)]
