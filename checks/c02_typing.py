"""C02: static typing — results conform to declared types and ill-typed programs are refused."""
import json

import avt
import engines
import pbt
from avt import accepts, tojson, toinput
from pbt import Violation, Discard, show
from runner import Sub
from progs import Program
from engines import compile_outcome, outcome

RULE = ("one generated document per case: either well-typed (it must compile, and every value it returns, emits, logs, or keeps in cells and pools must belong to its "
        "static type), or carrying one typing mistake out of about fifty kinds at a random place (it must be refused with a syntax or semantic error), or with a random "
        "declared output type (it must compile exactly when the type of the last expression is accepted); a case is non-trivial when the engine ran, or when the refusal was expected; "
        "distinct = distinct documents")
ASSUMPTIONS = ["the type of an expression and the acceptance relation are those of the independent model in lib/progs.py and lib/avt.py"]
FACTOR = {"quick": 3, "thorough": 6}


def wrong(d):
    p = Program(d, d.choice(["map", "emit", "fold"]), bad=d.int(1, 14), maxfns=2, depth=2)
    d.note({"mistake": p.bad, "doc": p.doc})
    d.sut()
    kind, e = compile_outcome(p.doc)
    d.label(p.bad)
    if kind not in (("schema", "semantic", "syntax") if p.bad == "unknown type" else ("syntax", "semantic")):
        raise Violation("a program with a mistake (%s) is accepted: %s" % (p.bad, json.dumps(p.doc)))
    d.nontrivial(json.dumps(p.doc, sort_keys=True))


def state_init(d):
    """initial values of another type"""
    p = Program(d, d.choice(["map", "fold", "fold"]), maxcells=2)
    items = [("cells", n) for n in p.cells0] + [("pools", n) for n in p.pools0] + ([("zero", None)] if p.method == "fold" else [])
    if not items:
        raise Discard()
    sec, n = d.choice(items)
    t = p.output if sec == "zero" else p.g.cells[n][0] if sec == "cells" else p.g.pools[n][0]
    w = p.g.type(2) if d.bool() else p.g.wrongtype(t)
    if w is None or t[0] in ("float", "double", "int", "long") and w[0] in ("float", "double", "int", "long", "string", "boolean"):
        raise Discard()
    v = avt.tojsonvalue(p.g.value(w), w, p.env)
    if fits(v, t, p.env):
        raise Discard()
    doc = json.loads(json.dumps(p.doc))
    if sec == "zero":
        doc["zero"] = v
    elif sec == "cells":
        doc["cells"][n]["init"] = v
    else:
        doc["pools"][n]["init"]["a"] = v
    d.note({"section": sec, "name": n, "type": t, "init": v})
    d.sut()
    kind, e = compile_outcome(doc)
    if kind not in ("syntax", "semantic", "init"):
        raise Violation("%s %s of type %s may start as %s: %s" % (sec, n, t, show(v), json.dumps(doc)))
    d.label(sec + " " + t[0])
    d.nontrivial(repr((sec, n, t, v)))


def fits(v, t, env):
    """could this JSON value be read as a value of type t (liberally)?"""
    k = t[0]
    if k == "null":
        return v is None
    if k == "boolean":
        return v is True or v is False
    if k in ("int", "long", "float", "double"):
        return isinstance(v, (int, float, str))
    if k in ("string", "bytes"):
        return isinstance(v, str)
    if k == "fixed":
        return isinstance(v, str) and len(v) == env.fixeds[t[1]]
    if k == "enum":
        return v in env.enums[t[1]]
    if k == "array":
        return isinstance(v, list) and all(fits(x, t[1], env) for x in v)
    if k == "map":
        return isinstance(v, dict) and all(fits(x, t[1], env) for x in v.values())
    if k == "record":
        fs = env.records[t[1]]
        return isinstance(v, dict) and all((f[0] in v and fits(v[f[0]], f[1], env)) or f[1] == avt.NULL for f in fs)
    if v is None:
        return avt.NULL in t[1]
    return isinstance(v, dict) and len(v) == 1 and any(avt.tag(x) in v and fits(v[avt.tag(x)], x, env) for x in t[1])


def out_type(d):
    p = Program(d, d.choice(["map", "fold"]), maxcells=1)
    t = p.action.st
    if t is None:
        raise Discard()
    g = p.g
    k = d.below(5)
    if k == 0:
        u = t
    elif k == 1 and t[0] != "union":
        u = avt.UNION(*d.shuffle([t, avt.STRING if t != avt.STRING else avt.NULL]))
    elif k == 2 and t[0] == "union":
        u = d.choice(t[1])
    elif k == 3 and t in avt.NUMERIC:
        u = d.choice(avt.NUMERIC)
    else:
        u = g.type(2)
    if p.method == "fold":
        # the tally and the merge have the declared type: only the action's result is varied
        doc = dict(p.doc, method="map")
        for k in ("zero", "merge", "end"):
            doc.pop(k, None)
        if "tally" in json.dumps(doc["action"]):
            raise Discard()
    else:
        doc = dict(p.doc)
    doc["output"] = tojson(u)
    d.note(doc)
    d.sut()
    kind, e = compile_outcome(doc)
    want = accepts(u, t, p.env)
    if (kind == "ok") != want:
        raise Violation("last expression of type %s, declared output %s: %s (%s), expected %s: %s"
                        % (t, u, kind, e if kind != "ok" else "", "accepted" if want else "refused", json.dumps(doc)))
    d.label("%s %s" % (t[0], "accepted" if want else "refused"))
    d.nontrivial(json.dumps(doc, sort_keys=True))


def conforming(d):
    p = Program(d, depth=4)
    d.note(p.doc)
    d.sut()
    kind, e = compile_outcome(p.doc, options={"timeout": 300})      # generated loops may be endless
    if kind != "ok":
        raise Violation("a well-typed program is refused: %s %s" % (e, json.dumps(p.doc)))
    bad = []
    e.emit = lambda x: bad.append(("emitted", x, p.output)) if not avt.conforms(x, p.output, p.env) else None
    e.log = lambda m, ns: None

    def chk(what, x, t):
        if not avt.conforms(x, t, p.env):
            raise Violation("%s holds %s, which is not of type %s: %s" % (what, show(x), t, json.dumps(p.doc)))
    outcome(e.begin)
    ran = 0
    for _ in range(d.int(1, 4)):
        x = wild(d, p)
        r = outcome(e.action, toinput(x, p.intype, p.env))
        d.label(r[0])
        if r[0] == "ok":
            ran += 1
            if p.method != "emit":
                chk("the result of action", r[1], p.output)
        for n, (t,) in p.g.cells.items():
            chk("cell " + n, e.cells[n].value, t)
        for n, (t,) in p.g.pools.items():
            chk("pool " + n, e.pools[n].value, avt.MAP(t))
        if bad:
            raise Violation("%s %s, not of type %s: %s" % (bad[0] + (json.dumps(p.doc),)))
    outcome(e.end)
    if ran:
        d.nontrivial(json.dumps(p.doc, sort_keys=True))


def wild(d, p):
    """an input with boundary numbers and arbitrary text"""
    o = avt.ValOpts(nan=True, bigfloat=True)
    if p.simple_input:
        return avt.gen_value(d, p.intype, p.env, o)
    return {n: ([] if n.startswith("decl") else avt.gen_value(d, t, p.env, o)) for n, t, _ in p.fields}


SUBS = [Sub("wrong", wrong, 900, 20000), Sub("init", state_init, 300, 6000), Sub("output", out_type, 500, 10000), Sub("conforming", conforming, 400, 10000)]


def probe_retag():
    """a value of a union stored where a union of wider numbers is expected keeps its tag"""
    from titus.genpy import PFAEngine
    e, = PFAEngine.fromJson({"input": ["null", "int"], "output": ["null", "long"], "action": "input"})
    return e.action({"int": 3}) != {"long": 3}


PROBES = {"union-retag": probe_retag}
