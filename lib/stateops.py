"""Generated documents whose action is a list of independently modelled operations on cells, pools and variables.

Every operation is guarded by a bit of the input, so one document runs any subsequence; every value read is reported through log.
"""
import copy
import json

import avt
import engines
from avt import ARRAY, MAP, INT, STRING, BOOLEAN, LONG, DOUBLE, NULL, accepts, tojson, tojsonvalue, toinput, match
from engines import Err, outcome
from pbt import Violation, show
from progs import path_get, path_set, Gen

KEYS = ["a", "b", "c", "one two"]


class StateDoc(object):
    def __init__(self, d, nops=None, shared=None, rollback=True, prelude=True, extra=None):
        self.d = d
        env = self.env = avt.gen_env(d, 3, recursive=d.bool())
        g = self.g = Gen(d, env=env, method="map")
        self.types = {}
        self.cells, self.pools = {}, {}
        self.shared, self.roll = {}, {}

        def typ(depth=3):
            t = avt.gen_type(d, env, depth)
            if t[0] in ("array", "map", "record") or d.chance(1, 4):
                return t
            return d.choice([ARRAY, MAP])(t)
        for i in range(d.int(1, 2)):
            n = "c%d" % i
            t = typ()
            self.cells[n] = (t, self.value(t))
        for i in range(d.int(0, 2)):
            n = "p%d" % i
            t = typ(2)
            self.pools[n] = (t, {k: self.value(t) for k in d.sample(KEYS, d.below(3))})
        for n in list(self.cells) + list(self.pools):
            self.shared[n] = d.bool() if shared is None else shared
            self.roll[n] = rollback and not self.shared[n] and d.bool()
        self.fields = [("on", ARRAY(BOOLEAN)), ("fail", BOOLEAN)]
        self.ops = []
        self.vars = []          # (name, type)
        self.fns = {}
        for i in range(nops or d.int(2, 9)):
            self.ops.append(self.op(i))
        declared = set()
        fs = [{"name": "decl%d" % i, "type": {"type": "array", "items": tojson(t, env, declared)}} for i, t in enumerate(env.types())]
        self.fields = [("decl%d" % i, ARRAY(t)) for i, t in enumerate(env.types())] + self.fields
        fs += [{"name": n, "type": tojson(t)} for n, t in self.fields[len(fs):]]
        self.env.records["In"] = [(n, t, {}) for n, t in self.fields]
        self.intype = ("record", "In")
        action = []
        for i, (j, f) in enumerate(self.ops):
            if "let" in j:
                action.append(j)
            else:
                action.append({"if": {"attr": "input", "path": [["on"], i]}, "then": j["seq"]})
        action.append({"if": "input.fail", "then": [{"error": "stop", "code": -9}]})
        action.append(None)
        self.doc = {"input": {"type": "record", "name": "In", "fields": fs}, "output": "null", "action": action}
        if self.fns:
            self.doc["fcns"] = self.fns
        if self.cells:
            self.doc["cells"] = {n: self.item(n, t, tojsonvalue(v, t, env)) for n, (t, v) in self.cells.items()}
        if self.pools:
            self.doc["pools"] = {n: self.item(n, t, {k: tojsonvalue(x, t, env) for k, x in v.items()}) for n, (t, v) in self.pools.items()}

    def item(self, n, t, init):
        out = {"type": tojson(t), "init": init}
        if self.shared[n] or self.d.chance(1, 4):
            out["shared"] = self.shared[n]
        if self.roll[n]:
            out["rollback"] = True
        return out

    def value(self, t):
        return avt.gen_value(self.d, t, self.env, avt.ValOpts(keys=KEYS))

    # ------------------------------------------------------------ pieces

    def field(self, t):
        n = "x%d" % len(self.fields)
        self.fields.append((n, t))
        return n

    def path(self, t, first=None, want=None):
        """(JSON path, f(inp) -> concrete steps, type at the end)"""
        d = self.d
        cands = self.g.typepaths(t, want, 3)
        if want is None and d.chance(2, 3):
            deep = [c for c in cands if c[0]]
            cands = deep or cands
        steps, x = d.choice(cands)
        if first:
            steps = [(first, None)] + steps
        js, fs = [], []
        for kind, f in steps:
            if kind == "record":
                js.append([f])
                fs.append(lambda inp, f=f: ("record", f))
            elif kind == "array":
                if d.bool():
                    i = d.choice([0, 0, 1, 2])
                    js.append(i)
                    fs.append(lambda inp, i=i: ("array", i))
                else:
                    n = self.field(d.choice([INT, INT, LONG]))
                    js.append("input." + n)
                    fs.append(lambda inp, n=n: ("array", inp[n]))
            else:
                if d.bool():
                    k = d.choice(KEYS)
                    js.append([k])
                    fs.append(lambda inp, k=k: ("map", k))
                else:
                    n = self.field(STRING)
                    js.append("input." + n)
                    fs.append(lambda inp, n=n: ("map", inp[n]))
        return js, (lambda inp: [f(inp) for f in fs]), x

    def change(self, t):
        """(JSON of a one-argument function t -> t, python function(inp) -> (old -> new)) computing with the old value"""
        d = self.d
        opts = ["field", "same"]
        if t in (INT, LONG):
            opts += ["inc"] * 3
        elif t == DOUBLE:
            opts += ["inc"] * 3
        elif t[0] == "array":
            opts += ["append", "append", "rest", "swap"]
        elif t[0] == "map":
            opts += ["add", "add", "remove"]
        elif t == STRING:
            opts += ["concat"] * 3
        elif t[0] == "record":
            opts += ["attrto"] * 3
        k = d.choice(opts)
        if k == "inc":
            # stays in range whatever the value is
            body = {"+": [{"%": ["old", 100]}, 3]}
            if t == DOUBLE:
                return [{"+": ["old", 1]}], lambda inp: (lambda o: float(o) + 1)
            return [body], lambda inp: (lambda o: o % 100 + 3)
        if k == "append":
            n = self.field(t[1])
            return [{"a.append": ["old", "input." + n]}], lambda inp: (lambda o: list(o) + [inp[n]])
        if k == "rest":
            return [{"if": {">": [{"a.len": ["old"]}, 0]}, "then": [{"a.tail": ["old"]}], "else": ["old"]}], lambda inp: (lambda o: list(o[1:]))
        if k == "swap":
            return [{"a.concat": [{"a.subseq": ["old", 1, 100]}, {"a.subseq": ["old", 0, 1]}]}], lambda inp: (lambda o: list(o[1:]) + list(o[:1]))
        if k == "add":
            n = self.field(t[1])
            key = d.choice(KEYS)
            return [{"map.add": ["old", [key], "input." + n]}], lambda inp: (lambda o: dict(o, **{key: inp[n]}))
        if k == "remove":
            key = d.choice(KEYS)
            return [{"map.remove": ["old", [key]]}], lambda inp: (lambda o: {a: b for a, b in o.items() if a != key})
        if k == "concat":
            n = self.field(STRING)
            return [{"s.concat": ["old", "input." + n]}], lambda inp: (lambda o: o + inp[n])
        if k == "attrto":
            js, fs, x = self.path(t)
            if not js:
                return ["old"], lambda inp: (lambda o: o)
            n = self.field(x)
            return [{"attr": "old", "path": js, "to": "input." + n}], lambda inp: (lambda o: path_set(o, fs(inp), lambda _: inp[n], 2002, 2003))
        if k == "field":
            n = self.field(t)
            return ["input." + n], lambda inp: (lambda o: inp[n])
        return ["old"], lambda inp: (lambda o: o)

    def to(self, t):
        """("to" JSON, f(inp, st) -> function old -> new)"""
        d = self.d
        k = d.below(4)
        if k <= 1:
            # an expression of a type that may be narrower
            opts = []
            for n, vt in self.vars:
                if accepts(t, vt, self.env):
                    opts.append(n)
            if opts and d.bool():
                n = d.choice(opts)
                vt = dict(self.vars)[n]
                return n, lambda inp, st: (lambda o: conv(st.vars[n], vt, t, self.env))
            srcs = [n for n, (ct, _) in self.cells.items() if accepts(t, ct, self.env)]
            if srcs and d.bool():
                n = d.choice(srcs)
                ct = self.cells[n][0]

                def f(inp, st):
                    v = conv(st.cells[n], ct, t, self.env)
                    return lambda o: v
                return {"cell": n}, f
            n = self.field(t)
            return "input." + n, lambda inp, st: (lambda o: inp[n])
        if t == DOUBLE and d.bool():
            # references to library functions
            name = d.choice(["m.floor", "m.ceil"])
            rnd = __import__("math").floor if name == "m.floor" else __import__("math").ceil

            def lib(o):
                return float(rnd(o)) if o == o and abs(o) < 1e300 else o
            return {"fcn": name}, lambda inp, st: lib
        if t == STRING and d.bool():
            n = self.field(STRING)
            return d.choice([
                ({"fcn": "s.concat", "fill": {"y": "input." + n}}, lambda inp, st: (lambda o: o + inp[n])),
                ({"fcn": "s.concat", "fill": {"x": "input." + n}}, lambda inp, st: (lambda o: inp[n] + o))])
        j, f = self.change(t)
        if k == 3 and not any("input." in json.dumps(x) for x in j):
            name = "f%d" % len(self.fns)
            self.fns[name] = {"params": [{"old": tojson(t)}], "ret": tojson(t), "do": j}
            return {"fcn": "u." + name}, lambda inp, st: f(inp)
        return {"params": [{"old": tojson(t)}], "ret": tojson(t), "do": j}, lambda inp, st: f(inp)

    # ------------------------------------------------------------ operations

    def op(self, i):
        d = self.d
        kinds = ["cellget", "cellto", "cellto", "cellto"]
        if self.pools:
            kinds += ["poolget", "poolto", "poolto", "poolto", "pooldel"]
        kinds += ["let", "let"]
        if self.vars:
            kinds += ["attrto", "attrto", "setvar", "show"]
        k = d.choice(kinds)
        env = self.env
        if k == "let":
            n = "h%d" % i
            if self.vars and d.chance(1, 3):
                src, t = d.choice(self.vars)
                j, f = src, lambda inp, st: st.vars[src]
            elif d.bool():
                t = d.choice([t for t, _ in self.cells.values()])
                fld = self.field(t)
                j, f = "input." + fld, lambda inp, st: inp[fld]
            else:
                c = d.choice(sorted(self.cells))
                t = self.cells[c][0]
                js, fs, x = [], None, t
                j, f = {"cell": c}, lambda inp, st: st.cells[c]
            self.vars.append((n, t))

            def run(inp, st):
                st.vars[n] = f(inp, st)
            return {"let": {n: j}}, run
        if k == "show":
            n, t = d.choice(self.vars)
            return {"seq": [{"log": [n]}]}, lambda inp, st: st.log(st.vars[n], t)
        if k == "setvar":
            n, t = d.choice(self.vars)
            tj, tf = self.to_value(t)

            def run(inp, st):
                st.vars[n] = tf(inp, st)
                st.log(st.vars[n], t)
            return {"seq": [{"set": {n: tj}}, {"log": [n]}]}, run
        if k == "attrto":
            n, t = d.choice(self.vars)
            js, fs, x = self.path(t)
            if not js:
                return {"seq": [{"log": [n]}]}, lambda inp, st: st.log(st.vars[n], t)
            tj, tf = self.to(x)
            back = d.bool()

            def run(inp, st):
                p = fs(inp)
                new = path_set(st.vars[n], p, tf(inp, st), 2002, 2003)
                st.log(new, t)
                st.log(st.vars[n], t)
                if back:
                    st.vars[n] = new
            name = "r%d" % i
            seq = [{"let": {name: {"attr": n, "path": js, "to": tj}}}, {"log": [name]}, {"log": [n]}]
            if back:
                seq.append({"set": {n: name}})
            return {"seq": seq}, run
        if k == "cellget":
            n = d.choice(sorted(self.cells))
            js, fs, x = self.path(self.cells[n][0])
            j = {"cell": n}
            if js or d.bool():
                j["path"] = js

            return {"seq": [{"log": [j]}]}, lambda inp, st: st.log(path_get(st.cells[n], fs(inp), 2004, 2005), x)
        if k == "cellto":
            n = d.choice(sorted(self.cells))
            t = self.cells[n][0]
            js, fs, x = self.path(t)
            tj, tf = self.to(x)
            j = {"cell": n, "to": tj}
            if js:
                j["path"] = js

            def run(inp, st):
                p = fs(inp)
                f = tf(inp, st)
                st.cells[n] = path_set(st.cells[n], p, f, 2006, 2007)
                st.log(st.cells[n], t)
            return {"seq": [{"log": [j]}]}, run
        n = d.choice(sorted(self.pools))
        t = self.pools[n][0]
        if k == "poolget":
            js, fs, x = self.path(t, first="map")
            return {"seq": [{"log": [{"pool": n, "path": js}]}]}, lambda inp, st: st.log(path_get(st.pools[n], fs(inp), 2008, 2009), x)
        if k == "poolto":
            js, fs, x = self.path(t, first="map")
            tj, tf = self.to(x)
            init = self.field(t)

            def run(inp, st):
                p = fs(inp)
                f = tf(inp, st)
                key, rest = p[0][1], p[1:]
                old = st.pools[n][key] if key in st.pools[n] else inp[init]
                new = path_set(old, rest, f, 2010, 2011)
                st.pools[n] = dict(st.pools[n])
                st.pools[n][key] = new
                st.log(new, t)
            return {"seq": [{"log": [{"pool": n, "path": js, "to": tj, "init": "input." + init}]}]}, run
        fld = self.field(STRING)

        def run(inp, st):
            st.pools[n] = {a: b for a, b in st.pools[n].items() if a != inp[fld]}
        return {"seq": [{"pool": n, "del": "input." + fld}]}, run

    def to_value(self, t):
        d = self.d
        srcs = [n for n, (ct, _) in self.cells.items() if accepts(t, ct, self.env)]
        if srcs and d.bool():
            n = d.choice(srcs)
            ct = self.cells[n][0]
            return {"cell": n}, lambda inp, st: conv(st.cells[n], ct, t, self.env)
        n = self.field(t)
        return "input." + n, lambda inp, st: inp[n]

    # ------------------------------------------------------------ inputs

    def gen_input(self):
        d = self.d
        out = {}
        p = d.choice([2, 3, 6])
        for n, t in self.fields:
            if n.startswith("decl"):
                out[n] = []
            elif n == "on":
                out[n] = [d.below(p) > 0 for _ in self.ops]
            elif n == "fail":
                out[n] = d.chance(1, 6)
            elif t in (INT, LONG):
                out[n] = d.choice([0, 0, 1, 1, 2, 3, -1, 17])
            elif t == STRING:
                out[n] = d.choice(KEYS)
            else:
                out[n] = self.value(t)
        return out


def conv(v, st, t, env):
    from progs import conv as c
    return c(v, st, t, env)


class RefState(object):
    """the reference: cells and pools as plain dictionaries of model values"""

    def __init__(self, doc, cells=None, pools=None):
        self.doc = doc
        self.cells = cells if cells is not None else {n: v for n, (t, v) in doc.cells.items()}
        self.pools = pools if pools is not None else {n: v for n, (t, v) in doc.pools.items()}
        self.logged = []
        self.vars = {}

    def log(self, v, t):
        self.logged.append((v, t))

    def action(self, inp):
        self.vars = {}
        keepc, keepp = dict(self.cells), dict(self.pools)
        doc = self.doc
        try:
            for i, (j, f) in enumerate(doc.ops):
                if "let" in j or inp["on"][i]:
                    f(inp, self)
            if inp["fail"]:
                from engines import UserErr
                raise UserErr("stop", -9)
        except Exception:
            for n in keepc:
                if doc.roll[n]:
                    self.cells[n] = keepc[n]
            for n in keepp:
                if doc.roll[n]:
                    self.pools[n] = keepp[n]
            raise
        return None


class StateRun(object):
    """engine and reference in step"""

    def __init__(self, doc, engine, ref):
        self.doc, self.engine, self.ref = doc, engine, ref
        self.logged = []
        self.kept = []
        engine.log = lambda message, namespace: (self.logged.extend(message), self.kept.append((message, copy.deepcopy(message))))
        self.history = []

    def fail(self, what):
        raise Violation("%s\nprogram: %s\nhistory: %s" % (what, show(self.doc.doc, 6000), show(self.history, 3000)))

    def action(self, inp):
        doc = self.doc
        datum = toinput(inp, doc.intype, doc.env)
        self.history.append(copy.deepcopy(datum))
        keep = copy.deepcopy(datum)
        want = engines.refoutcome(self.ref.action, inp)
        got = outcome(self.engine.action, datum)
        if got != want:
            self.fail("action gave %s, expected %s" % (show(got), show(want)))
        if datum != keep:
            self.fail("action changed its input: %s became %s" % (show(keep), show(datum)))
        self.kept.append((datum, keep))
        self.compare()
        return got

    def compare(self):
        doc, ref = self.doc, self.ref
        env = doc.env
        if len(self.logged) != len(ref.logged):
            self.fail("%d values reported, expected %d" % (len(self.logged), len(ref.logged)))
        for got, (v, t) in zip(self.logged, ref.logged):
            if not match(got, v, t, env):
                self.fail("an operation saw %s, expected %s (type %s)" % (show(got), show(v), t))
        for n, (t, _) in doc.cells.items():
            if not match(self.engine.cells[n].value, ref.cells[n], t, env):
                self.fail("cell %s holds %s, expected %s" % (n, show(self.engine.cells[n].value), show(ref.cells[n])))
            self.kept.append((self.engine.cells[n].value, copy.deepcopy(self.engine.cells[n].value)))
        for n, (t, _) in doc.pools.items():
            if not match(self.engine.pools[n].value, ref.pools[n], MAP(t), env):
                self.fail("pool %s holds %s, expected %s" % (n, show(self.engine.pools[n].value), show(ref.pools[n])))
            for v in self.engine.pools[n].value.values():
                self.kept.append((v, copy.deepcopy(v)))

    def unchanged(self):
        """every value seen so far is still what it was"""
        for v, was in self.kept:
            if v != was and not (v != v):
                self.fail("a value that was %s has become %s" % (show(was), show(v)))


def run(d, doc, **kw):
    kind, e = engines.compile_outcome(doc.doc, **kw)
    if kind != "ok":
        raise Violation("a well-formed program is refused (%s): %s\nprogram: %s" % (kind, e, json.dumps(doc.doc)))
    return StateRun(doc, e, RefState(doc))
