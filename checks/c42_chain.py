"""C42: a chained document behaves as the composition of its engines."""
import copy
import json
import shutil
import tempfile

import avt
import engines
import pbt
from avt import INT, STRING, DOUBLE, U, NULL, tag, toinput, match, contains
from engines import Err, UserErr, outcome, refoutcome
from pbt import Discard, Violation, show
from progs import Program, RefEngine
from runner import Sub

import titus.producer.chain as chain
from titus.errors import PFAException, SchemaParseException, AvroException
from titus.genpy import PFAEngine
import titus.reader

RULE = ("one chain of one to three generated documents per case (the input type of each is the output type of the one before, under the same or other names; "
        "map and emit engines; cells, pools, functions, begin and end routines), chained through every entry point and driven over a stream; each output, emitted "
        "value and error is compared with reference interpreters of the single documents connected output to input; non-trivial when the chain has at least two "
        "engines and something came out of it; places: names used inside every form of the language at once in every engine, whose value is known; distinct = distinct documents and streams")
ASSUMPTIONS = ["the chain has its own name, version, metadata and counters: a step that asks for them gets the chain's",
               "what an engine emits is handed to the next engine at once, so an error further down the chain ends the emitting action",
               "an action of the chain is one action: after an error the state with rollback of all of its steps is restored (generated for chains of map engines)",
               "an engine does not emit while it begins (later steps have not begun) or inside the update of a cell or pool (the language forbids nested updates)"]
FACTOR = {"quick": 1, "thorough": 1}
REFUSED = (chain.PFAChainError, PFAException, SchemaParseException, AvroException)


# ------------------------------------------------------------------ types

def closure(t, env, out=None):
    out = [] if out is None else out
    if t[0] in ("array", "map"):
        closure(t[1], env, out)
    elif t[0] == "union":
        for x in t[1]:
            closure(x, env, out)
    elif t[0] in ("record", "enum", "fixed") and t[1] not in out:
        out.append(t[1])
        if t[0] == "record":
            for f in env.records[t[1]]:
                closure(f[1], env, out)
    return out


def rename(t, names):
    if t[0] in ("array", "map"):
        return (t[0], rename(t[1], names))
    if t[0] == "union":
        return ("union", tuple(rename(x, names) for x in t[1]))
    if t[0] in ("record", "enum", "fixed"):
        return (t[0], names[t[1]])
    return t


def nextenv(d, t, env):
    """an environment with the types of t under new (or old) names, and more types"""
    used = closure(t, env)
    kind = d.below(3)
    if kind == 0:
        new = list(used)
    elif kind == 1:
        new = ["S%d" % i for i in range(len(used))]
    else:
        new = d.sample(used, len(used))
    names = dict(zip(used, new))
    out = avt.Env()
    for n in used:
        if n in env.records:
            out.records[names[n]] = [(f[0], rename(f[1], names)) + tuple(f[2:]) for f in env.records[n]]
        elif n in env.enums:
            out.enums[names[n]] = list(env.enums[n])
        else:
            out.fixeds[names[n]] = env.fixeds[n]
        out.order.append(names[n])
    return out, names


def extend(d, env, g):
    for i in range(d.below(3)):
        n = "T%d" % i
        if n in env.order:
            continue
        k = d.below(4)
        if k == 0:
            env.add_enum(n, ["A", "B", "C"])
        elif k == 1:
            env.add_fixed(n, d.int(1, 3))
        else:
            env.add_record(n, [("f%d" % j, g.type(1, env)) for j in range(d.int(1, 3))])


def move(v, a, aenv, b, benv):
    """the same value in a structurally equal type of another environment"""
    if a[0] != b[0]:
        raise ValueError((a, b))
    if a[0] == "array":
        return [move(x, a[1], aenv, b[1], benv) for x in v]
    if a[0] == "map":
        return {k: move(x, a[1], aenv, b[1], benv) for k, x in v.items()}
    if a[0] == "record":
        fa, fb = aenv.records[a[1]], benv.records[b[1]]
        return {f[0]: move(v[f[0]], f[1], aenv, g[1], benv) for f, g in zip(fa, fb)}
    if a[0] == "union":
        if v is None:
            return None
        for x, y in zip(a[1], b[1]):
            if tag(x) == v.tag:
                return U(tag(y), move(v.v, x, aenv, y, benv))
        raise ValueError((v, a))
    return v


def sametype(a, aenv, b, benv, names=None, seen=None):
    """structurally the same type, with a consistent renaming"""
    names = {} if names is None else names
    if a[0] != b[0]:
        return False
    if a[0] in ("array", "map"):
        return sametype(a[1], aenv, b[1], benv, names)
    if a[0] == "union":
        return len(a[1]) == len(b[1]) and all(sametype(x, aenv, y, benv, names) for x, y in zip(a[1], b[1]))
    if a[0] in ("record", "enum", "fixed"):
        if a[1] in names:
            return names[a[1]] == b[1]
        names[a[1]] = b[1]
        if a[0] == "enum":
            return list(aenv.enums[a[1]]) == list(benv.enums[b[1]])
        if a[0] == "fixed":
            return aenv.fixeds[a[1]] == benv.fixeds[b[1]]
        fa, fb = aenv.records[a[1]], benv.records[b[1]]
        return len(fa) == len(fb) and all(f[0] == g[0] and sametype(f[1], aenv, g[1], benv, names) for f, g in zip(fa, fb))
    return True


# ------------------------------------------------------------------ the reference: engines connected output to input

class Feed(list):
    def __init__(self, f):
        list.__init__(self)
        self.f = f

    def append(self, v):
        list.append(self, v)
        self.f(v)


class Composition(object):
    def __init__(self, progs, name, version, metadata):
        self.progs = progs
        self.out, self.logged = [], []
        self.started = self.finished = 0
        self.begun = False
        self.refs = []
        for i, p in enumerate(progs):
            r = RefEngine(p, name)
            r.common = {"name": name, "instance": 0, "metadata": dict(metadata)}
            if version is not None:
                r.common["version"] = version
            r.rt.logged = self.logged
            r.rt.emitted = Feed(lambda v, i=i: self.feed(i, v))
            self.refs.append(r)
        self.emits = any(p.method == "emit" for p in progs)

    def feed(self, i, v):
        if not self.begun:
            raise Discard()
        if i + 1 == len(self.progs):
            self.out.append(v)
            if len(self.out) > 200:
                raise Discard()
        else:
            p, q = self.progs[i], self.progs[i + 1]
            self.step(i + 1, move(v, p.output, p.env, q.intype, q.env))

    def step(self, i, x):
        r, p = self.refs[i], self.progs[i]
        fuel = r.rt.fuel
        r.started, r.finished = self.started - 1, self.finished
        y = r.action(x)
        if self.emits:
            if p.method == "map":
                self.feed(i, y)
            return None
        if i + 1 == len(self.progs):
            return y
        q = self.progs[i + 1]
        return self.step(i + 1, move(y, p.output, p.env, q.intype, q.env))

    def begin(self):
        for r in self.refs:
            r.begin()
        self.begun = True

    def action(self, x):
        self.started += 1
        before = [(dict(r.rt.cells), dict(r.rt.pools)) for r in self.refs]
        try:
            y = self.step(0, x)
        except (Err, UserErr):
            # the action of the chain is one action
            for p, r, (cells, pools) in zip(self.progs, self.refs, before):
                r.rt.cells.update({k: v for k, v in cells.items() if p.roll[k]})
                r.rt.pools.update({k: v for k, v in pools.items() if p.roll[k]})
            raise
        self.finished += 1
        return y

    def end(self):
        for r in self.refs:
            r.started, r.finished = self.started, self.finished
            r.end()


# ------------------------------------------------------------------ building

def sequence(d, n, **kw):
    progs = []
    allmap = d.chance(1, 3)
    for i in range(n):
        common = dict(maxfns=2, maxcells=1, depth=2, emit_in_state=False, rollback=allmap)
        common.update(kw)
        method = "map" if allmap else d.choice(["map", "map", "emit"])
        if i == 0:
            p = Program(d, method, **common)
        else:
            env, names = nextenv(d, progs[-1].output, progs[-1].env)
            extend(d, env, progs[-1].g)
            p = Program(d, method, env=env, intype=rename(progs[-1].output, names), **common)
        progs.append(p)
    return progs


def clash(progs):
    """the input of the first and the output of the last name different types alike"""
    a, b = progs[0], progs[-1]
    both = set(closure(a.intype, a.env)) & set(closure(b.output, b.env))
    return len(progs) > 1 and any(not sametype((k, n), a.env, (k2, n), b.env)
                                  for n in both for k, e in ((kind(n, a.env), 0),) for k2 in (kind(n, b.env),))


def kind(n, env):
    return "record" if n in env.records else "enum" if n in env.enums else "fixed"


def asinput(d, doc):
    k = d.below(3)
    if k == 0:
        return copy.deepcopy(doc)
    if k == 1:
        return json.dumps(doc)
    return titus.reader.jsonToAst(doc)


def chained(d, docs, name, version, metadata):
    pfas = [asinput(d, x) for x in docs]
    kw = dict(name=name, version=version, metadata=metadata)
    k = d.below(4)
    if k == 0:
        return chain.engine(pfas, **kw)[0]
    if k == 1:
        return engines.build(chain.jsonNode(pfas, lineNumbers=d.bool(), check=d.bool(), **kw))
    if k == 2:
        return engines.build(chain.json(pfas, lineNumbers=d.bool(), check=d.bool(), **kw))
    return PFAEngine.fromAst(chain.ast(pfas, check=d.bool(), **kw))[0]


def composed(d):
    n = d.choice([1, 2, 2, 2, 3])
    progs = sequence(d, n)
    docs = [p.doc for p in progs]
    for p in progs:
        if engines.compile_outcome(p.doc)[0] != "ok":
            raise Discard()          # C01 decides this
    version = d.choice([4, 5]) if any(p.version is not None for p in progs) or d.chance(1, 4) else None
    metadata = d.choice([{}, {"m": "v"}])
    name = d.choice([None, "Whole"])
    stream = [progs[0].gen_input() for _ in range(d.int(1, 4))]
    d.note({"docs": docs, "version": version, "name": name})
    d.sut()

    def fail(what):
        raise Violation("%s\nengines: %s\nname %r version %r stream %s" % (
            what, show(docs, 8000), name, version, show([toinput(x, progs[0].intype, progs[0].env) for x in stream], 1500)))
    try:
        e = chained(d, docs, name, version, metadata)
    except REFUSED as ex:
        if clash(progs):
            d.label("input and output types clash")
            raise Discard()
        fail("a chain of compatible engines is refused: %s: %s" % (type(ex).__name__, ex))
    if name is None and all(p.name for p in progs):
        name = "Chain_" + "_".join(p.name for p in progs)
    ref = Composition(progs, name or e.config.name, version, metadata)
    if e.config.name != ref.refs[0].common["name"]:
        fail("the chain is called %r, not %r" % (e.config.name, ref.refs[0].common["name"]))
    if (e.config.method == "emit") != ref.emits:
        fail("the method of the chain is %s" % e.config.method)
    first, last = progs[0], progs[-1]
    ienv, oenv = avt.Env(), avt.Env()
    it = avt.fromjson(json.loads(repr(e.config.input)), ienv)
    ot = avt.fromjson(json.loads(repr(e.config.output)), oenv)
    names = {}
    if not sametype(it, ienv, first.intype, first.env, names) or any(a != b for a, b in names.items()):
        fail("the input of the chain is %s, that of its first engine is %s" % (e.config.input, first.injson))
    if not sametype(ot, oenv, last.output, last.env):
        fail("the output of the chain is %s, that of its last engine is %s" % (e.config.output, avt.tojson(last.output, last.env, set())))
    got, logged = [], []
    e.emit = got.append
    e.log = lambda message, namespace: logged.append((list(message), namespace))

    def both(what, f, g, returns=False):
        want = refoutcome(g)
        have = outcome(f)
        if have[0] != want[0] or have[0] != "ok" and have != want:
            fail("%s: the chain gave %s, its engines one after another give %s" % (what, show(have), show(want)))
        if have[0] == "ok" and returns:
            w = move(want[1], last.output, last.env, ot, oenv)
            if not match(have[1], w, ot, oenv):
                fail("%s: the chain returned %s, its engines one after another %s" % (what, show(have[1]), show(w)))
        if len(got) != len(ref.out) or not all(match(a, move(b, last.output, last.env, ot, oenv), ot, oenv) for a, b in zip(got, ref.out)):
            fail("%s: the chain has emitted %s, its engines one after another %s" % (what, show(got), show(ref.out)))
        if len(logged) != len(ref.logged) or [ns for _, ns in logged] != [ns for _, ns in ref.logged]:
            fail("%s: the chain has logged %s, its engines %s" % (what, show(logged), show(ref.logged)))
        return want
    both("begin", e.begin, ref.begin)
    done = 0
    for x in stream:
        datum = toinput(x, first.intype, first.env)
        r = both("action(%s)" % show(datum), lambda: e.action(datum), lambda: ref.action(x), not ref.emits)
        d.label("action " + r[0])
        done += r[0] == "ok"
    both("end", e.end, ref.end)
    d.label("%d engines: %s" % (n, " ".join(p.method for p in progs)))
    for p in progs:
        for f in p.g.features:
            d.label(f)
    if n > 1 and (ref.out if ref.emits else done):
        d.nontrivial(json.dumps([docs, [repr(x) for x in stream]], sort_keys=True))


# ------------------------------------------------------------------ type names wherever they can appear

def addextras(d, env):
    """orders and defaults of fields"""
    for n in env.order:
        for f in env.records.get(n, ()):
            x = f[2]
            if d.chance(1, 4):
                x["order"] = d.choice(["ascending", "descending", "ignore"])
            if d.chance(1, 3):
                t = f[1][1][0] if f[1][0] == "union" else f[1]
                if not contains(t, lambda y: y[0] == "record", env):
                    x["default"] = avt.tojsonvalue(avt.gen_value(d, t, env), t, env)


def omit(d, v, t, env):
    """the JSON of a value, without some of the fields that have their default"""
    if t[0] == "array":
        return [omit(d, x, t[1], env) for x in v]
    if t[0] == "map":
        return {k: omit(d, x, t[1], env) for k, x in v.items()}
    if t[0] == "union":
        return None if v is None else {v.tag: omit(d, v.v, [x for x in t[1] if tag(x) == v.tag][0], env)}
    if t[0] == "record":
        out = {}
        for f in env.records[t[1]]:
            j = omit(d, v[f[0]], f[1], env)
            if "default" in f[2]:
                dflt = f[2]["default"]
                if f[1][0] == "union" and f[1][1][0] != NULL:
                    dflt = {tag(f[1][1][0]): dflt}
                if json.dumps(dflt) == json.dumps(j) and d.bool():
                    continue
            out[f[0]] = j
        return out
    return avt.tojsonvalue(v, t, env)


def usedefaults(d, v, t, env):
    """give some fields their default value"""
    if t[0] == "array":
        return [usedefaults(d, x, t[1], env) for x in v]
    if t[0] == "map":
        return {k: usedefaults(d, x, t[1], env) for k, x in v.items()}
    if t[0] == "union":
        return None if v is None else U(v.tag, usedefaults(d, v.v, [x for x in t[1] if tag(x) == v.tag][0], env))
    if t[0] == "record":
        out = {}
        for f in env.records[t[1]]:
            out[f[0]] = usedefaults(d, v[f[0]], f[1], env)
            if "default" in f[2] and d.bool():
                ft = f[1]
                if ft[0] == "union":
                    ft = ft[1][0]
                x = unjson(f[2]["default"], ft)
                out[f[0]] = x if f[1][0] != "union" or ft == NULL else U(tag(ft), x)
        return out
    return v


def unjson(j, t):
    if t[0] == "array":
        return [unjson(x, t[1]) for x in j]
    if t[0] == "map":
        return {k: unjson(x, t[1]) for k, x in j.items()}
    if t[0] == "union":
        if j is None:
            return None
        (k, v), = j.items()
        return U(k, unjson(v, [x for x in t[1] if tag(x) == k][0]))
    if t[0] in ("bytes", "fixed"):
        return j.encode("latin-1")
    return j


def attributes(t):
    """orders and defaults of the fields of a type, in the order they are written"""
    out = []

    def walk(j):
        if isinstance(j, list):
            for x in j:
                walk(x)
        elif isinstance(j, dict):
            for f in j.get("fields", ()):
                out.append((f["name"], f.get("order") or "ascending", "default" in f))
                walk(f["type"])
            for k in ("items", "values"):
                walk(j.get(k))
    walk(json.loads(repr(t)))
    return out


class Step(object):
    """an engine whose outputs are its inputs, or values written in it"""

    def __init__(self, d, t, env, folder, i):
        self.t, self.env = t, env
        v = usedefaults(d, avt.gen_value(d, t, env), t, env)
        self.v = v
        self.emit = d.chance(1, 3)
        declared = set()
        j = avt.tojson(t, env, declared)
        ref = avt.tojson(t)
        doc = {"input": j, "output": ref, "name": d.choice(["Engine", "Other"])}
        lit = {"type": ref, "value": omit(d, v, t, env)}
        inline = lambda do: {"params": [{d.choice(["old", "input", "name"]): ref}], "ret": ref, "do": do}
        k = self.kind = d.choice(["input", "literal", "cell", "external", "externals", "swap", "pool", "poolto", "pooldel", "fcn", "inline", "array", "map", "record", "upcast", "castcase", "twice",
                                  "begin", "fill"])
        self.state = v
        if k == "input":
            e = "input"
        elif k == "literal":
            e = lit
        elif k in ("cell", "swap"):
            doc["cells"] = {"c": {"type": ref, "init": omit(d, v, t, env)}}
            e = {"cell": "c"} if k == "cell" else {"do": [{"let": {"keep": {"cell": "c"}}}, {"cell": "c", "to": "input"}, "keep"]}
        elif k == "begin":
            doc["cells"] = {"c": {"type": ref, "init": omit(d, avt.gen_value(d, t, env), t, env)}}
            doc["begin"] = [{"let": {"x": lit}}, {"cell": "c", "to": "x"}]
            doc["end"] = [{"let": {"x": {"cell": "c"}}}]
            e = {"cell": "c"}
        elif k == "external":
            fn = "%s/c%d.json" % (folder, i)
            with open(fn, "w") as f:
                json.dump(omit(d, v, t, env), f)
            doc["cells"] = {"c": {"type": ref, "init": fn, "source": "json"}}
            e = {"cell": "c"}
        elif k == "externals":
            fn = "%s/p%d.json" % (folder, i)
            with open(fn, "w") as f:
                json.dump({"k": omit(d, v, t, env)}, f)
            doc["pools"] = {"p": {"type": ref, "init": fn, "source": "json"}}
            e = {"pool": "p", "path": [["k"]]}
        elif k == "pool":
            doc["pools"] = {"p": {"type": ref, "init": {"k": omit(d, v, t, env)}}}
            e = {"pool": "p", "path": [["k"]]}
        elif k == "poolto":
            doc["pools"] = {"p": {"type": ref, "init": {}}}
            e = {"attr": {"type": {"type": "map", "values": ref}, "new": {"k": {"pool": "p", "path": [["k"]], "to": inline("input" if False else [lit]), "init": "input"}}}, "path": [["k"]]}
        elif k == "pooldel":
            doc["pools"] = {"p": {"type": ref, "init": {"k": omit(d, v, t, env)}}}
            e = {"do": [{"pool": "p", "del": ["k"]}, {"pool": "p", "path": [["k"]], "to": {"fcn": "u.id"}, "init": "input"}, {"pool": "p", "path": [["k"]]}]}
            doc["fcns"] = {"id": {"params": [{"x": ref}], "ret": ref, "do": "x"}}
        elif k == "fcn":
            doc["fcns"] = {"g": {"params": [{"name": ref}, {"y": {"type": "array", "items": ref}}], "ret": ref, "do": [{"u.h": ["name"]}]},
                           "h": {"params": [{"x": ref}], "ret": ref, "do": "x"}}
            e = {"u.g": ["input", {"type": {"type": "array", "items": ref}, "value": []}]}
        elif k == "inline":
            e = {"attr": {"a.map": [{"type": {"type": "array", "items": ref}, "new": ["input"]}, {"params": [{"actionsStarted": ref}], "ret": ref, "do": ["actionsStarted"]}]}, "path": [0]}
        elif k == "array":
            e = {"attr": {"type": {"type": "array", "items": ref}, "new": [lit, "input"]}, "path": [d.choice([0, 1])]}
            self.kind = "literal" if e["path"] == [0] else "input"
        elif k == "fill":
            x = d.choice(["x", "y"])
            doc["fcns"] = {"snd": {"params": [{"x": ref}, {"y": ref}], "ret": ref, "do": x}}
            e = {"attr": {"a.map": [{"type": {"type": "array", "items": ref}, "new": ["input"]}, {"fcn": "u.snd", "fill": {"y": lit}}]}, "path": [0]}
            self.kind = "input" if x == "x" else "literal"
        elif k == "map":
            e = {"attr": {"type": {"type": "map", "values": ref}, "new": {"a": "input"}}, "path": [["a"]]}
        elif k == "record":
            e = {"attr": {"type": {"type": "record", "name": "T99", "fields": [{"name": "f", "type": ref}, {"name": "g", "type": {"type": "array", "items": "T99"}}]},
                          "new": {"f": "input", "g": {"type": {"type": "array", "items": "T99"}, "value": []}}}, "path": [["f"]]}
        elif k == "upcast":
            e = {"upcast": "input", "as": ref}
        elif k == "castcase":
            if t[0] == "union":
                e = {"cast": "input", "cases": [{"as": avt.tojson(x), "named": "x", "do": [{"upcast": "x", "as": ref}]} for x in t[1]]}
            else:
                e = "input"
        elif k == "twice":
            e = {"attr": {"a.flatten": [{"type": {"type": "array", "items": {"type": "array", "items": ref}}, "new": [{"type": {"type": "array", "items": ref}, "new": ["input"]}]}]},
                 "path": [0]}
        if self.kind == "poolto":
            self.constant = True
        # emit
        if self.emit:
            doc["method"] = "emit"
            how = d.below(3)
            if how == 0:
                e = {"emit": [e]}
            elif how == 1:
                e = {"a.map": [{"type": {"type": "array", "items": ref}, "new": [e]}, {"fcn": "emit"}]}
            else:
                doc.setdefault("fcns", {})["em"] = {"params": [{"x": ref}], "ret": "null", "do": [{"emit": ["x"]}]}
                e = {"u.em": [e]}
        doc["action"] = e
        self.doc = doc

    def value(self, x):
        k = self.kind
        if k in ("literal", "cell", "external", "externals", "pool", "begin", "poolto"):
            return self.v
        if k == "swap":
            self.state, x = x, self.state
        return x


def picktype(d, env):
    named = env.types()
    if not named or d.chance(1, 4):
        return avt.gen_type(d, env, 2)
    t = d.choice(named)
    k = d.below(6)
    if k == 0:
        return ("array", t)
    if k == 1:
        return ("map", t)
    if k == 2:
        return avt.UNION(*d.shuffle([t, d.choice([NULL, INT, STRING] if t[0] == "record" else [NULL, INT, ("array", t)])]))
    return t


def typenames(d):
    folder = tempfile.mkdtemp(prefix="c42")
    try:
        n = d.choice([1, 2, 2, 3, 3])
        env = avt.gen_env(d, recursive=True)
        addextras(d, env)
        t = picktype(d, env)
        steps = []
        for i in range(n):
            steps.append(Step(d, t, env, folder, i))
            if i + 1 < n:
                env, names = nextenv(d, t, env)
                t = rename(t, names)
        docs = [s.doc for s in steps]
        for x in docs:
            k, why = engines.compile_outcome(x)
            if k != "ok":
                d.label("refused alone")
                raise Discard()
        stream = [avt.gen_value(d, steps[0].t, steps[0].env) for _ in range(d.int(1, 3))]
        d.note({"docs": docs, "stream": [repr(x) for x in stream]})
        d.sut()

        def fail(what):
            raise Violation("%s\nengines: %s" % (what, show(docs, 6000)))
        try:
            e = chained(d, docs, None, None, {})
        except REFUSED as ex:
            fail("a chain of compatible engines is refused: %s: %s" % (type(ex).__name__, ex))
        oenv = avt.Env()
        ot = avt.fromjson(json.loads(repr(e.config.output)), oenv)
        last = steps[-1]
        if not sametype(ot, oenv, last.t, last.env):
            fail("the output of the chain is %s" % e.config.output)
        if attributes(e.config.input) != attributes(engines.build(docs[0]).config.input) or attributes(e.config.output) != attributes(engines.build(docs[-1]).config.output):
            fail("field orders or defaults differ: input %s, output %s" % (e.config.input, e.config.output))
        got = []
        e.emit = got.append
        e.begin()
        for x in stream:
            y = x
            for a, b in zip(steps, steps[1:] + [None]):
                y = a.value(y)
                y = move(y, a.t, a.env, b.t, b.env) if b else move(y, a.t, a.env, ot, oenv)
            datum = toinput(x, steps[0].t, steps[0].env)
            r = e.action(datum)
            if any(s.emit for s in steps):
                if len(got) != 1:
                    fail("action(%s) emitted %s instead of one value" % (show(datum), show(got)))
                r = got.pop()
            if not match(r, y, ot, oenv):
                fail("action(%s): the chain gave %s, its engines one after another %s" % (show(datum), show(r), show(toinput(y, ot, oenv))))
        e.end()
        for s in steps:
            d.label(s.kind + (" emit" if s.emit else ""))
        if n > 1 and closure(ot, oenv):
            d.nontrivial(json.dumps([docs, [repr(x) for x in stream]], sort_keys=True))
    finally:
        shutil.rmtree(folder)


# ------------------------------------------------------------------ incompatible sequences

def spoil(d, t, env):
    """(type, env) with one part made incompatible, or None"""
    e = avt.Env()
    e.records = {n: [tuple(f) for f in fs] for n, fs in env.records.items()}
    e.enums = {n: list(x) for n, x in env.enums.items()}
    e.fixeds = dict(env.fixeds)
    e.order = list(env.order)
    done = []
    seen = set()

    def walk(t):
        k = t[0]
        if k in ("array", "map"):
            if d.chance(1, 3):
                done.append("container")
                return ({"array": "map", "map": "array"}[k], t[1])
            return (k, walk(t[1]))
        if k == "union":
            if d.chance(1, 3) and len(t[1]) > 2:
                done.append("a member less")
                return ("union", t[1][1:])
            if d.chance(1, 3):
                done.append("a member more")
                extra = [x for x in (INT, STRING, ARRAYI, avt.BOOLEAN, NULL) if not any(tag(x) == tag(y) for y in t[1])]
                return ("union", t[1] + (extra[0],))
            i = d.below(len(t[1]))
            return ("union", tuple(other(x, t[1]) if j == i and x[0] not in ("record", "enum", "fixed") else x for j, x in enumerate(t[1])))
        if k == "fixed":
            e.fixeds[t[1]] += 1
            done.append("size")
            return t
        if k == "enum":
            s = e.enums[t[1]]
            done.append("symbols")
            m = d.below(3)
            if m == 0 or len(s) < 2:
                s.append("more")
            elif m == 1:
                s.pop()
            else:
                s[0], s[1] = s[1], s[0]
            return t
        if k == "record":
            if t[1] in seen:
                return t
            seen.add(t[1])
            fs = e.records[t[1]]
            m = d.below(5)
            if m == 0 or not fs:
                fs.append(("more", INT, {}))
                done.append("a field more")
            elif m == 1:
                fs.pop()
                done.append("a field less")
            elif m == 2:
                fs[0] = ("renamed",) + fs[0][1:]
                done.append("field name")
            elif m == 3 and len(fs) > 1:
                fs[0], fs[1] = fs[1], fs[0]
                done.append("field order")
            else:
                i = d.below(len(fs))
                if fs[i][1][0] != "record":
                    fs[i] = (fs[i][0], walk(fs[i][1])) + tuple(fs[i][2:])
            return t
        return other(t, ())
    ARRAYI = ("array", INT)

    def other(t, taken):
        # not a type that could hold the value either
        choices = {"int": [STRING, avt.BOOLEAN], "long": [INT, STRING], "float": [INT, avt.LONG, STRING], "double": [INT, avt.LONG, avt.FLOAT, NULL], "string": [avt.BYTES, INT],
                   "bytes": [STRING, DOUBLE], "boolean": [STRING, INT], "null": [STRING, INT]}.get(t[0])
        choices = [c for c in choices or () if not any(tag(c) == tag(x) for x in taken)]
        if not choices:
            return t
        done.append("primitive")
        return d.choice(choices)
    out = walk(t)
    return (out, e, done[0]) if done else None


def refused(d):
    env = avt.gen_env(d, recursive=True)
    t = picktype(d, env)
    what = d.below(8)
    first = {"input": "int", "output": avt.tojson(t, env, set()), "action": [{"type": avt.tojson(t), "value": avt.tojsonvalue(avt.gen_value(d, t, env), t, env)}]}
    fold = {"input": avt.tojson(t, env, set()), "output": "int", "method": "fold", "zero": 0, "action": "tally", "merge": "tallyOne"}
    if what == 0:
        docs = [first, fold]
        why = "fold"
    else:
        env2, names = nextenv(d, t, env)
        r = spoil(d, rename(t, names), env2)
        if r is None:
            raise Discard()
        t2, env2, why = r
        docs = [first, {"input": avt.tojson(t2, env2, set()), "output": "int", "action": [1]}]
    if d.chance(1, 4):
        docs.insert(0, {"input": "string", "output": "int", "action": [2]})
    if d.chance(1, 4):
        docs.append({"input": "int", "output": "int", "action": [3]})
    if d.chance(1, 4):
        docs[0] = dict(docs[0], method="emit", action=[{"emit": [docs[0]["action"]]}])
    for x in docs:
        if engines.compile_outcome(x)[0] != "ok":
            raise Discard()
    d.note(docs)
    d.sut()
    d.label("%s" % why)
    d.nontrivial(json.dumps(docs, sort_keys=True))
    try:
        chained(d, docs, None, None, {}) if d.bool() else chain.ast(docs)
    except REFUSED:
        return
    except NotImplementedError:
        if why != "fold":
            raise
        return
    raise Violation("a chain of incompatible engines (%s) is accepted: %s" % (why, show(docs, 5000)))


# ------------------------------------------------------------------ functions called by the name in an enum

def byname_doc(offsets):
    syms = sorted(offsets)
    return {"input": {"type": "record", "name": "In", "fields": [{"name": "f", "type": {"type": "enum", "name": "Which", "symbols": syms}}, {"name": "x", "type": "int"}]},
            "output": "int", "action": {"call": "input.f", "args": ["input.x"]},
            "fcns": {n: {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", offsets[n]]}} for n in syms}}


def byname(d):
    offsets = {n: d.smallint(9) for n in d.sample(["one", "two", "three"], d.int(1, 3))}
    docs = [byname_doc(offsets)] + ([{"input": "int", "output": "int", "action": {"*": ["input", 2]}}] if d.bool() else [])
    stream = [{"f": d.choice(sorted(offsets)), "x": d.smallint(20)} for _ in range(3)]
    d.note([docs, stream])
    d.nontrivial(json.dumps([docs, stream], sort_keys=True))
    try:
        e = chain.engine(docs)[0]
    except REFUSED as ex:
        raise Violation("a chain of compatible engines is refused: %s: %s" % (type(ex).__name__, show(docs)), "call-by-name")
    for x in stream:
        want = (x["x"] + offsets[x["f"]]) * (2 if len(docs) > 1 else 1)
        r = e.action(x)
        if r != want:
            raise Violation("the chain gave %s for %s, expected %s: %s" % (r, x, want, show(docs)))


def byname_fails():
    try:
        chain.engine([byname_doc({"one": 1})])
    except REFUSED:
        return True
    return False


# ------------------------------------------------------------------ errors and rollback

def rollback(d):
    n = d.int(1, 3)
    spec = [dict(roll=d.bool(), pool=d.bool(), mod=d.int(2, 5), bad=d.below(3), first=d.bool()) for _ in range(n)]
    docs = []
    for s in spec:
        kind = "pools" if s["pool"] else "cells"
        where = {"pool": "s", "path": [["k"]]} if s["pool"] else {"cell": "s"}
        write = dict(where, to={"+": [where, "input"]}, **({"init": 0} if s["pool"] else {}))
        check = {"if": {"==": [{"%%": [{"m.abs": ["input"]}, s["mod"]]}, s["bad"]]}, "then": {"error": "bad", "code": -7}}
        doc = {"input": "int", "output": "int", kind: {"s": {"type": "int", "init": {"k": 0} if s["pool"] else 0, "rollback": s["roll"]}},
               "action": ([check, write] if s["first"] else [write, check]) + [{"+": ["input", where]}]}
        if not s["roll"] and d.bool():
            del doc[kind]["s"]["rollback"]
        docs.append(doc)
    stream = [d.smallint(9) for _ in range(d.int(2, 6))]
    d.note([docs, stream])
    d.nontrivial(json.dumps([docs, stream], sort_keys=True))
    d.sut()
    e = chained(d, docs, None, None, {})
    e.begin()
    state = [0] * n
    for x in stream:
        keep = list(state)
        y, want = x, None
        for i, s in enumerate(spec):
            bad = abs(y) % s["mod"] == s["bad"]
            if not (bad and s["first"]):
                state[i] += y
            if bad:
                want = ("user", "bad", -7)
                break
            y += state[i]
        if want is None:
            want = ("ok", y)
        else:
            state = [k if s["roll"] else v for k, v, s in zip(keep, state, spec)]
        got = outcome(e.action, x)
        d.label(got[0])
        if got != want:
            raise Violation("action(%d): the chain gave %s, its engines one after another %s (an error restores all state with rollback)\nengines: %s\nstream: %s" % (
                x, show(got), show(want), show(docs, 3000), stream))


# ------------------------------------------------------------------ names used in every place an expression can stand

BAD = {"type": "bytes", "value": "xyz"}
GOOD = {"type": "bytes", "value": "\u0000\u0000\u0000\u0005"}
REC = {"type": "record", "name": "Rec", "fields": [{"name": "f", "type": "int"}]}
INTS = {"type": "array", "items": "int"}
INTM = {"type": "map", "values": "int"}
NI = ["null", "int"]


def noop(t="int"):
    return {"params": [{"o": t}], "ret": t, "do": "o"}


# expression of type int -> expression with the same value that evaluates it in a certain place
PLACES = {
    "do": lambda e: {"do": [1, e]},
    "let": lambda e: {"do": [{"let": {"v": e}}, "v"]},
    "set": lambda e: {"do": [{"let": {"v": 0}}, {"set": {"v": e}}, "v"]},
    "then": lambda e: {"if": True, "then": [e], "else": [0]},
    "else": lambda e: {"if": False, "then": [0], "else": [e]},
    "if": lambda e: {"do": [{"if": {"==": [e, e]}, "then": [1]}, e]},
    "cond": lambda e: {"cond": [{"if": False, "then": 1}, {"if": {"==": [e, e]}, "then": e}], "else": 3},
    "condelse": lambda e: {"cond": [{"if": False, "then": 1}], "else": e},
    "while": lambda e: {"do": [{"let": {"v": 0, "i": 0}}, {"while": {"&&": [{"<": ["i", 1]}, {"==": [e, e]}]}, "do": [{"set": {"i": {"+": ["i", 1]}}}, {"set": {"v": e}}]}, "v"]},
    "until": lambda e: {"do": [{"let": {"v": 0, "i": 0}}, {"do": [{"set": {"v": e}}], "until": {"==": ["v", e]}}, "v"]},
    "forinit": lambda e: {"do": [{"let": {"v": 0}}, {"for": {"i": e}, "while": {"==": ["i", e]}, "step": {"i": {"+": ["i", 1]}}, "do": [{"set": {"v": "i"}}]}, "v"]},
    "forbody": lambda e: {"do": [{"let": {"v": 0}}, {"for": {"i": 0}, "while": {"<": ["i", 1]}, "step": {"i": {"+": ["i", 1]}}, "do": [{"set": {"v": e}}]}, "v"]},
    "forstep": lambda e: {"do": [{"let": {"v": 0, "j": 0}}, {"for": {"i": 0}, "while": {"<": ["j", 2]}, "step": {"i": e}, "do": [{"set": {"v": "i", "j": {"+": ["j", 1]}}}]}, "v"]},
    "foreach": lambda e: {"do": [{"let": {"v": 0}}, {"foreach": "x", "in": {"type": INTS, "new": [e]}, "do": [{"set": {"v": "x"}}], "seq": True}, "v"]},
    "foreachbody": lambda e: {"do": [{"let": {"v": 0}}, {"foreach": "x", "in": {"type": INTS, "value": [1]}, "do": [{"set": {"v": e}}], "seq": True}, "v"]},
    "forkeyval": lambda e: {"do": [{"let": {"v": 0}}, {"forkey": "k", "forval": "x", "in": {"type": INTM, "new": {"a": e}}, "do": [{"set": {"v": "x"}}]}, "v"]},
    "forkeyvalbody": lambda e: {"do": [{"let": {"v": 0}}, {"forkey": "k", "forval": "x", "in": {"type": INTM, "value": {"a": 1}}, "do": [{"set": {"v": e}}]}, "v"]},
    "array": lambda e: {"attr": {"type": INTS, "new": [0, e]}, "path": [1]},
    "map": lambda e: {"attr": {"type": INTM, "new": {"k": e}}, "path": [["k"]]},
    "record": lambda e: {"attr": {"type": REC, "new": {"f": e}}, "path": [["f"]]},
    "path": lambda e: {"+": [{"attr": {"type": INTS, "value": [7]}, "path": [{"*": [0, e]}]}, {"-": [e, 7]}]},
    "attrto": lambda e: {"attr": {"attr": {"type": INTS, "value": [7]}, "path": [0], "to": e}, "path": [0]},
    "attrtopath": lambda e: {"do": [{"attr": {"type": INTS, "value": [7]}, "path": [{"-": [e, e]}], "to": 1}, e]},
    "attrtofcn": lambda e: {"attr": {"attr": {"type": INTS, "value": [7]}, "path": [0], "to": {"params": [{"o": "int"}], "ret": "int", "do": e}}, "path": [0]},
    "inline": lambda e: {"attr": {"a.map": [{"type": INTS, "value": [7]}, {"params": [{"o": "int"}], "ret": "int", "do": e}]}, "path": [0]},
    "argument": lambda e: {"a.max": [{"type": INTS, "new": [e]}]},
    "upcast": lambda e: {"upcast": e, "as": "int"},
    "cast": lambda e: {"cast": {"upcast": e, "as": ["int", "string"]}, "cases": [{"as": "int", "named": "x", "do": ["x"]}, {"as": "string", "named": "x", "do": [0]}]},
    "castcase": lambda e: {"cast": {"upcast": 0, "as": ["int", "string"]}, "cases": [{"as": "int", "named": "x", "do": [e]}, {"as": "string", "named": "x", "do": [0]}]},
    "castpartial": lambda e: {"do": [{"let": {"v": 0}}, {"cast": {"upcast": 0, "as": ["int", "string"]}, "cases": [{"as": "int", "named": "x", "do": [{"set": {"v": e}}]}], "partial": True}, "v"]},
    "ifnotnull": lambda e: {"ifnotnull": {"x": {"upcast": e, "as": NI}}, "then": ["x"], "else": [0]},
    "ifnotnullthen": lambda e: {"ifnotnull": {"x": {"upcast": 1, "as": NI}}, "then": [e], "else": [0]},
    "ifnull": lambda e: {"ifnotnull": {"x": {"upcast": None, "as": NI}}, "then": [0], "else": [e]},
    "unpack": lambda e: {"unpack": {"pack": [{">int": e}]}, "format": [{"x": ">int"}], "then": ["x"], "else": [0]},
    "unpackthen": lambda e: {"unpack": GOOD, "format": [{"x": ">int"}], "then": [e], "else": [0]},
    "unpackelse": lambda e: {"unpack": BAD, "format": [{"x": ">int"}], "then": [0], "else": [e]},
    "doc": lambda e: {"do": [{"doc": "a note"}, e]},
    "log": lambda e: {"do": [{"log": [e]}, e]},
    "try": lambda e: {"ifnotnull": {"x": {"try": [e]}}, "then": ["x"], "else": [0]},
    "errorelse": lambda e: {"ifnotnull": {"x": {"try": [{"if": {"==": [e, e]}, "then": [{"error": "no"}], "else": [1]}]}}, "then": [0], "else": [e]},
    "cellto": lambda e: {"do": [{"cell": "n", "to": e}, {"cell": "n"}]},
    "cellpath": lambda e: {"do": [{"cell": "a", "path": [{"-": [e, e]}], "to": e}, {"cell": "a", "path": [{"-": [e, e]}]}]},
    "poolto": lambda e: {"do": [{"pool": "p", "path": [["k"]], "to": e, "init": 0}, {"pool": "p", "path": [["k"]]}]},
    "poolinit": lambda e: {"do": [{"pool": "p", "del": ["z"]}, {"pool": "p", "path": [["z"]], "to": noop(), "init": e}, {"pool": "p", "path": [["z"]]}]},
    "poolkey": lambda e: {"do": [{"pool": "p", "path": [{"s.int": [e]}], "to": e, "init": 0}, {"pool": "p", "path": [{"s.int": [e]}]}]},
    "pooldel": lambda e: {"do": [{"pool": "q", "del": {"s.int": [e]}}, e]},
    "celltofcn": lambda e: {"do": [{"cell": "n", "to": {"fcn": "u.keep"}}, e]},
    "fill": lambda e: {"attr": {"a.map": [{"type": INTS, "new": [0]}, {"fcn": "u.plus", "fill": {"y": e}}]}, "path": [0]},
    "call": lambda e: {"u.plus": [0, e]},
    "and": lambda e: {"do": [{"&&": [{"==": [e, e]}, {"||": [False, {"==": [e, 0]}]}]}, e]},
}
PLACENAMES = sorted(PLACES)


def numbered(x, depth):
    """variables (and keys) of a place get names of their own"""
    if isinstance(x, dict):
        return {numbered(a, depth): numbered(b, depth) for a, b in x.items()}
    if isinstance(x, list):
        return [numbered(a, depth) for a in x]
    return "%s%d" % (x, depth) if x in ("v", "i", "j", "x", "k") and isinstance(x, str) else x


def plugin(x, e):
    if isinstance(x, dict):
        return {a: plugin(b, e) for a, b in x.items()}
    if isinstance(x, list):
        return [plugin(a, e) for a in x]
    return e if isinstance(x, str) and x == "@" else x


def places(d):
    n = d.choice([1, 2, 2, 3])
    docs, terms, used = [], [], []
    for i in range(n):
        k = d.int(1, 9)
        what = d.choice(["fcn", "cell", "pool", "ref"])
        e = {"fcn": {"u.f": ["input"]}, "cell": {"+": ["input", {"cell": "s"}]}, "pool": {"+": ["input", {"pool": "s", "path": [["a"]]}]},
             "ref": {"attr": {"a.map": [{"type": INTS, "new": ["input"]}, {"fcn": "u.f"}]}, "path": [0]}}[what]
        names = [d.choice(PLACENAMES) for _ in range(d.choice([1, 1, 2, 3]))]
        for depth, name in enumerate(names):
            e = plugin(numbered(PLACES[name]("@"), depth), e)
        text = json.dumps(e)
        if len(text) > 20000:
            raise Discard()
        emit = d.chance(1, 4)
        doc = {"input": "int", "output": "int", "method": "emit" if emit else "map",
               "fcns": {"f": {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", k]}},
                        "keep": {"params": [{"x": "int"}], "ret": "int", "do": "x"},
                        "plus": {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": {"+": ["x", "y"]}}},
               "cells": {"n": {"type": "int", "init": 0}, "a": {"type": INTS, "init": [0]}},
               "pools": {"p": {"type": "int", "init": {}}, "q": {"type": "int", "init": {"1": 1}}}}
        (doc["cells"] if what == "cell" else doc["pools"])["s"] = {"type": "int", "init": k if what == "cell" else {"a": k}}
        where = d.below(3)
        if where == 1:
            # in a user function
            doc["fcns"]["whole"] = {"params": [{"input": "int"}], "ret": "int", "do": [e]}
            e = {"u.whole": ["input"]}
        doc["action"] = [{"emit": e}] if emit else [e]
        first = [True]

        def once(x):
            """a record type is declared where it is first used"""
            if x == REC:
                if first[0]:
                    first[0] = False
                    return x
                return "Rec"
            if isinstance(x, dict):
                return {a: once(b) for a, b in x.items()}
            return [once(a) for a in x] if isinstance(x, list) else x
        doc["action"] = once(doc["action"])
        doc["fcns"] = once(doc["fcns"])
        docs.append(doc)
        terms.append((k, emit))
        used.append(names)
    for x in docs:
        kind, why = engines.compile_outcome(x)
        if kind != "ok":
            d.label("refused alone: %s" % " ".join(sorted(set(sum(used, [])))))
            raise Discard()
    stream = [d.smallint(50) for _ in range(d.int(1, 4))]
    d.note([docs, stream])
    d.sut()
    try:
        e = chained(d, docs, None, None, {})
    except REFUSED as ex:
        raise Violation("a chain of compatible engines is refused: %s: %s\nengines: %s" % (type(ex).__name__, ex, show(docs, 6000)))
    got = []
    e.emit = got.append
    e.log = lambda m, ns: None
    e.begin()
    for x in stream:
        want = x + sum(k for k, _ in terms)
        r = e.action(x)
        if any(m for _, m in terms):
            if len(got) != 1:
                raise Violation("action(%d) emitted %s: %s" % (x, got, show(docs, 6000)))
            r = got.pop()
        if r != want:
            raise Violation("action(%d): the chain gave %s, its engines one after another %s\nengines: %s" % (x, show(r), want, show(docs, 6000)))
    for names in used:
        for name in names:
            d.label(name)
    if n > 1:
        d.nontrivial(json.dumps([docs, stream], sort_keys=True))


PROBES = {"call-by-name": byname_fails}
SUBS = [Sub("byname", byname, 20, 50), Sub("composed", composed, 900, 12000), Sub("places", places, 500, 8000), Sub("typenames", typenames, 900, 16000), Sub("refused", refused, 400, 8000), Sub("rollback", rollback, 300, 5000)]
