"""C13: values are immutable."""
import copy
import json

import anycall
import avt
import stateops
from avt import toinput
from engines import compile_outcome, outcome
from pbt import Violation, Discard, show, same
from runner import Sub
from progs import Program

RULE = ("state: generated documents of operations that bind, read, replace and update values in variables, cells and pools; every value that was seen (inputs, bound variables, reported values, "
        "cell and pool contents after every action) is kept by reference together with a deep copy, and must equal its copy at the end; library: a generated well-typed call of any of the library "
        "functions, on values held by a cell, a pool, a variable and the caller, all of which must be unchanged afterwards; programs: generated programs, keeping inputs, outputs, emitted and logged values "
        "and state; a case is non-trivial when an update or call succeeded; distinct = distinct documents")
ASSUMPTIONS = []
FACTOR = {"quick": 3, "thorough": 6}


def state(d):
    doc = stateops.StateDoc(d, nops=d.int(4, 12))
    d.note(doc.doc)
    r = stateops.run(d, doc)
    d.sut()
    oks = 0
    for _ in range(d.int(2, 6)):
        got = r.action(doc.gen_input())
        oks += got[0] == "ok"
        r.unchanged()
    if oks and len(r.kept) > 3:
        d.nontrivial(json.dumps(doc.doc, sort_keys=True))


SLOW = ("re.", "prob.dist.", "rand.")        # patterns that match nothing, quantiles of extreme parameters


def library(d):
    names = [n for n in anycall.NAMES if not n.startswith(SLOW)]
    fcn = d.choice(names)
    c = anycall.AnyCall(d, fcn)
    lc, args = c.build()
    d.note({"fcn": fcn, "doc": lc.doc, "args": args})
    d.sut()
    # values come from the caller
    try:
        got = lc(*args)
    except Violation:
        raise
    except Exception as e:
        d.label("internal error")
        raise Discard()
    # the same values held by a cell
    doc = json.loads(json.dumps(lc.doc))
    init = {"x%d" % i: avt.tojsonvalue(c_value(a, t, c.env), t, c.env) for i, (a, t) in enumerate(zip(args, c.types)) if t[0] != "fcn"}
    init["pad"] = None
    doc["cells"] = {"held": {"type": "LibIn", "init": init}}
    call = doc["action"][0]["let"]["libresult"][fcn]
    doc["action"] = [{"let": {"before": {"cell": "held"}}},
                     {"cell": "held", "to": {"params": [{"input": "LibIn"}], "ret": "LibIn", "do": [{"let": {"libresult": {fcn: call}}}, "input"]}},
                     {"type": "LibOut", "new": {"r": {fcn: json.loads(json.dumps(call).replace('"input.', '"before.'))}, "in": "before"}}]
    # parameters of inline functions are evaluated where they are written: rename the updater's parameter to avoid shadowing
    doc = json.loads(json.dumps(doc).replace('"params": [{"input": "LibIn"}]', '"params": [{"heldnow": "LibIn"}]'))
    upd = doc["action"][1]["to"]
    upd["do"] = json.loads(json.dumps(upd["do"]).replace('"input.', '"heldnow.').replace('"input"', '"heldnow"'))
    rec = json.dumps(doc)
    kind, e = compile_outcome(doc)
    if kind == "ok":
        keep = copy.deepcopy(e.cells["held"].value)
        ref = e.cells["held"].value
        try:
            out = outcome(e.action, copy.deepcopy(dict({"x%d" % i: a for i, (a, t) in enumerate(zip(args, c.types)) if t[0] != "fcn"}, pad=None)))
        except Exception:
            d.label("internal error")
            raise Discard()
        if not same(ref, keep):
            raise Violation("%s modified the value held by a cell: %s became %s" % (fcn, show(keep), show(ref)))
        if not same(e.cells["held"].value, keep):
            raise Violation("after %s the cell holds %s, it was %s" % (fcn, show(e.cells["held"].value), show(keep)))
        if out[0] == "ok" and not same(out[1]["in"], keep):
            raise Violation("%s modified the value of a variable: %s became %s" % (fcn, show(keep), show(out[1]["in"])))
    d.label("second form " + kind)
    if got[0] == "ok":
        d.nontrivial(repr((fcn, c.params, args)))


def c_value(a, t, env):
    """model value of an input datum"""
    k = t[0]
    if k == "array":
        return [c_value(x, t[1], env) for x in a]
    if k == "map":
        return {n: c_value(x, t[1], env) for n, x in a.items()}
    if k == "record":
        return {f[0]: c_value(a[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union":
        if a is None:
            return None
        (tg, v), = a.items()
        for x in t[1]:
            if avt.tag(x) == tg:
                return avt.U(tg, c_value(v, x, env))
    return a


def programs(d):
    p = Program(d)
    d.note(p.doc)
    d.sut()
    kind, e = compile_outcome(p.doc, options={"timeout": 300})
    if kind != "ok":
        raise Discard()
    kept = []
    hold = lambda v, what: kept.append((v, copy.deepcopy(v), what))
    e.emit = lambda x: hold(x, "an emitted value")
    e.log = lambda m, ns: hold(m, "a logged value")
    outcome(e.begin)
    ran = 0
    for i in range(d.int(2, 5)):
        x = toinput(p.gen_input(), p.intype, p.env)
        hold(x, "an input")
        r = outcome(e.action, x)
        if r[0] == "ok":
            ran += 1
            hold(r[1], "an output")
        for n in p.g.cells:
            hold(e.cells[n].value, "the value of cell " + n)
        for n in p.g.pools:
            for k, v in e.pools[n].value.items():
                hold(v, "an item of pool " + n)
        for v, was, what in kept:
            if not same(v, was):
                raise Violation("%s was %s and has become %s: %s" % (what, show(was), show(v), json.dumps(p.doc)))
    if ran:
        d.nontrivial(json.dumps(p.doc, sort_keys=True))


SUBS = [Sub("state", state, 500, 15000), Sub("library", library, 1500, 60000), Sub("programs", programs, 300, 8000)]
