"""Type-directed generator of PFA programs together with an independent reference semantics.

Every generated expression is a Node: its JSON, its static type and a Python closure `ev(rt, sc)` giving the value the
language defines (a model value of lib/avt.py). Nothing here uses titus.
"""
import itertools
import json

import avt
from avt import (ARRAY, MAP, UNION, U, NULL, BOOLEAN, INT, LONG, FLOAT, DOUBLE, STRING, BYTES, tag, accepts, tojson,
                 tojsonvalue, gen_value)
from engines import Err, UserErr
from pbt import Discard

IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1
KEYS = ["a", "b", "c"]
NAMES = ["x", "y", "z", "u", "v", "w", "i", "j", "k", "acc"]
VALS = avt.ValOpts(keys=KEYS, alphabet="abc1 \u00e9", maxlen=3)


class Node(object):
    __slots__ = ("json", "st", "ev")

    def __init__(self, json, st, ev):
        self.json, self.st, self.ev = json, st, ev


class SScope(object):
    """static scope"""
    def __init__(self, parent=None, above=False, within=False):
        self.parent, self.above, self.within, self.vars, self.frozen = parent, above, within, {}, set()

    def sub(self, above=False, within=False):
        return SScope(self, above, within)

    def sealed(self):
        return SScope(self, True, True)

    def visible(self):
        out = self.parent.visible() if self.parent else {}
        out.update(self.vars)
        return out

    def writable(self, n):
        if self.within or n in self.frozen:
            return False
        if n in self.vars:
            return True
        if self.above or self.parent is None:
            return False
        return self.parent.writable(n)


class RScope(object):
    """run-time scope"""
    __slots__ = ("parent", "vars")

    def __init__(self, parent=None, **vars):
        self.parent, self.vars = parent, vars

    def get(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        raise AssertionError("reference interpreter: no variable " + n)

    def set(self, n, v):
        s = self
        while s is not None:
            if n in s.vars:
                s.vars[n] = v
                return
            s = s.parent
        raise AssertionError("reference interpreter: no variable " + n)


class Runtime(object):
    def __init__(self, fuel=4000):
        self.cells, self.pools, self.emitted, self.logged = {}, {}, [], []
        self.fuel0 = self.fuel = fuel

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard()


def conv(v, a, b, env):
    """value of static type a used where b is expected"""
    if a == b or b == NULL:
        return v
    if b[0] == "union":
        if v is None:
            return None
        if a[0] == "union":
            src = [x for x in a[1] if tag(x) == v.tag][0]
            val = v.v
        else:
            src, val = a, v
        exact = [x for x in b[1] if x == src] or [x for x in b[1] if accepts(x, src, env)]
        if a[0] == "union" and tag(exact[0]) != v.tag:
            raise Discard()     # known finding union-retag of C02
        return U(tag(exact[0]), conv(val, src, exact[0], env))
    if b[0] in ("float", "double"):
        if isinstance(v, int):
            if abs(v) > 2**53:
                raise Discard()
            return float(v)
        return v
    if b[0] == "array":
        return [conv(x, a[1], b[1], env) for x in v]
    if b[0] == "map":
        return {k: conv(x, a[1], b[1], env) for k, x in v.items()}
    return v


def path_get(v, path, acode, mcode):
    for kind, k in path:
        if kind == "array":
            if not 0 <= k < len(v):
                raise Err(acode)
        elif kind == "map":
            if k not in v:
                raise Err(mcode)
        v = v[k]
    return v


def path_set(v, path, f, acode, mcode):
    """copy of v with the element at path replaced by f(old)"""
    if not path:
        return f(v)
    (kind, k), rest = path[0], path[1:]
    if kind == "array":
        if not 0 <= k < len(v):
            raise Err(acode)
        out = list(v)
    else:
        if kind == "map" and k not in v:
            raise Err(mcode)
        out = dict(v)
    out[k] = path_set(v[k], rest, f, acode, mcode)
    return out


class Fn(object):
    def __init__(self, name, params, ret, body=None, writes=False):
        self.name, self.params, self.ret, self.body, self.writes = name, params, ret, body, writes


class Gen(object):
    def __init__(self, d, env=None, method="map", bad=None, effects=True, maxfns=3, maxcells=2, errors=True, depth=3, rollback=True, shared=False, emit_in_state=True):
        self.d = d
        self.emit_in_state = emit_in_state
        self.env = env if env is not None else self.gen_env()
        self.method = method
        self.fns = []
        self.cells = {}
        self.pools = {}
        self.nowrite = 0
        self.noemit = 0
        self.errors = errors
        self.budget = 60
        self.depth = depth
        self.bad_countdown = bad
        self.badkind = None
        self.output = None
        self.features = set()
        self.maxfns, self.maxcells = maxfns, maxcells
        self.rollback, self.shared = rollback, shared
        self.instate = 0

    # ------------------------------------------------------------ types

    def gen_env(self):
        d = self.d
        env = avt.Env()
        for i in range(d.below(4)):
            k = d.below(4)
            if k == 0:
                env.add_enum("T%d" % i, ["A", "B", "C"])
            elif k == 1:
                env.add_fixed("T%d" % i, d.int(1, 3))
            else:
                env.add_record("T%d" % i, [self.default(("f%d" % j, self.type(1, env))) for j in range(d.int(1, 3))])
        return env

    def default(self, f):
        """a field, sometimes with a default value"""
        t = f[1][1][0] if f[1][0] == "union" else f[1]
        values = {"null": [None], "boolean": [True, False], "string": ["it's \"q\" \\", ""], "int": [3], "array": [[]], "map": [{}]}.get(t[0])
        return f + ({"default": self.d.choice(values)},) if values and self.d.chance(1, 5) else f

    def type(self, depth=2, env=None):
        d = self.d
        env = env or self.env
        named = env.types()
        k = d.below(14)
        if depth <= 0 or k < 7:
            return d.choice([INT, STRING, DOUBLE, BOOLEAN, LONG, INT, DOUBLE, NULL, FLOAT, BYTES])
        if k < 8 and named:
            return d.choice(named)
        if k < 10:
            return ARRAY(self.type(depth - 1, env))
        if k < 12:
            return MAP(self.type(depth - 1, env))
        return self.utype(depth - 1, env)

    def utype(self, depth=1, env=None):
        """unions whose members can be told apart whatever the representation"""
        d = self.d
        env = env or self.env
        groups = {"n": [INT, LONG, FLOAT, DOUBLE], "s": [STRING, BYTES] + [t for t in env.types() if t[0] in ("enum", "fixed")],
                  "m": [MAP(self.type(depth - 1, env))] + [t for t in env.types() if t[0] == "record"],
                  "a": [ARRAY(self.type(depth - 1, env))], "b": [BOOLEAN], "0": [NULL]}
        pick = d.sample(["0", "n", "s", "b", "a", "m"], d.int(2, 3))
        if d.bool() and "0" not in pick:
            pick[0] = "0"
        return UNION(*[d.choice(groups[g]) for g in pick])

    # ------------------------------------------------------------ names

    def fresh(self, sc, avoid=()):
        vis = sc.visible()
        free = [n for n in NAMES if n not in vis and n not in avoid]
        if free and self.d.chance(4, 5):
            return free[0] if self.d.bool() else self.d.choice(free)
        k = 0
        while "n%d" % k in vis or "n%d" % k in avoid:
            k += 1
        return "n%d" % k

    # ------------------------------------------------------------ expressions

    def expr(self, t, depth, sc, exact=False):
        """Node whose static type is accepted by t (is t, when exact)"""
        if self.bad_countdown is not None:
            self.bad_countdown -= 1
            if self.bad_countdown == 0:
                j = self.badjson = self.badexpr(sc, t)
                return Node(j, t, None)
        self.budget -= 1
        if exact and (self.bad_countdown is not None or self.d.bool()):
            sc = sc.sealed()        # an upcast may be put around it
            n = self._expr(t, depth if self.budget > 0 else 0, sc)
            return self.up(n, t) if n.st != t else n
        n = self._expr(t, depth if self.budget > 0 else 0, sc)
        if exact and n.st != t:
            n = self.literal(t)
            return self.up(n, t) if n.st != t else n
        return n

    def up(self, n, t):
        env, ev, st = self.env, n.ev, n.st
        return Node({"upcast": n.json, "as": tojson(t)}, t, lambda rt, sc: conv(ev(rt, sc), st, t, env))

    def _expr(self, t, depth, sc):
        d = self.d
        opts = []
        refs = self.refs(t, sc)
        if refs:
            opts.append((6, lambda: self.ref(refs)))
        paths = self.varpaths(t, sc)
        if paths:
            opts.append((4, lambda: self.attrget(paths, depth, sc)))
        opts.append((3, lambda: self.literal(t)))
        if depth > 0:
            opts += [(2, lambda: self.doblock(t, depth - 1, sc)), (2, lambda: self.ifelse(t, depth - 1, sc)), (1, lambda: self.cond(t, depth - 1, sc)),
                     (1, lambda: self.castcase(t, depth - 1, sc)), (1, lambda: self.ifnotnull(t, depth - 1, sc)),
                     (1, lambda: self.upcast(t, depth - 1, sc))]
            if [f for f in self.fns if accepts(t, f.ret, self.env)]:
                opts.append((3, lambda: self.usercall(t, depth - 1, sc)))
            if any(self.typepaths(c[0], t) for c in self.cells.values()):
                opts.append((3, lambda: self.cellget(t, depth - 1, sc)))
            if any(self.typepaths(p[0], t) for p in self.pools.values()):
                opts.append((3, lambda: self.poolget(t, depth - 1, sc)))
            if not self.nowrite:
                if any(accepts(t, c[0], self.env) for c in self.cells.values()):
                    opts.append((2, lambda: self.cellto(d.choice([n for n, c in self.cells.items() if accepts(t, c[0], self.env)]), depth - 1, sc)))
                if any(accepts(t, p[0], self.env) for p in self.pools.values()):
                    opts.append((2, lambda: self.poolto(d.choice([n for n, p in self.pools.items() if accepts(t, p[0], self.env)]), depth - 1, sc)))
            if t[0] == "union" and NULL in t[1]:
                opts.append((4, lambda: self.trycatch(t, depth - 1, sc)))
            if t == NULL:
                opts.append((12, lambda: self.nullstatement(depth, sc)))
            if t[0] in ("array", "map", "record"):
                opts.append((4, lambda: self.new(t, depth - 1, sc)))
                opts.append((3, lambda: self.attrto(t, depth - 1, sc)))
            if t[0] in ("int", "long", "float", "double"):
                opts.append((6, lambda: self.arith(t, depth - 1, sc)))
                opts.append((2, lambda: self.numfn(t, depth - 1, sc)))
            if t == BOOLEAN:
                opts.append((6, lambda: self.boolean(depth - 1, sc)))
            if t == STRING:
                opts.append((3, lambda: self.sconcat(depth - 1, sc)))
            if t[0] == "array":
                opts.append((4, lambda: self.arrayfn(t, depth - 1, sc)))
            opts.append((2, lambda: self.lib_any(t, depth - 1, sc)))
        n = d.weighted(opts)()
        return n if n is not None else self.literal(t)

    def literal(self, t):
        d = self.d
        if t[0] == "union" and d.chance(2, 3):
            return self.literal(d.choice(t[1]))
        v = self.value(t)
        ev = lambda rt, sc: v
        k = t[0]
        if k == "null":
            return Node(None, t, ev)
        if k == "boolean":
            return Node(v, t, ev)
        if k == "int":
            return Node(v if d.chance(2, 3) else {"int": v}, t, ev)
        if k == "long":
            return Node({"long": v}, t, ev)
        if k == "float":
            return Node({"float": v}, t, ev)
        if k == "double":
            return Node(v if d.bool() else {"double": v}, t, ev)
        if k == "string":
            return Node([v] if d.bool() else {"string": v}, t, ev)
        if k == "bytes" and d.bool():
            import base64
            return Node({"base64": base64.b64encode(v).decode()}, t, ev)
        return Node({"type": tojson(t), "value": tojsonvalue(v, t, self.env)}, t, ev)

    def value(self, t, depth=3):
        d = self.d
        k = t[0]
        if k in ("int", "long"):
            return d.smallint(6) if d.chance(5, 6) else d.smallint(2000)
        if k in ("float", "double"):
            return d.smallint(40) / 4.0
        if k == "array":
            return [self.value(t[1], depth - 1) for _ in range(d.below(4 if depth > 0 else 1))]
        if k == "map":
            return {d.choice(KEYS): self.value(t[1], depth - 1) for _ in range(d.below(4 if depth > 0 else 1))}
        if k == "record":
            return {f[0]: self.value(f[1], depth - 1) for f in self.env.records[t[1]]}
        if k == "union":
            x = d.choice(t[1])
            return None if x == NULL else U(tag(x), self.value(x, depth - 1))
        return gen_value(d, t, self.env, VALS, depth)

    def refs(self, t, sc):
        return [(n, vt) for n, vt in sorted(sc.visible().items()) if accepts(t, vt, self.env)]

    def ref(self, refs):
        n, vt = self.d.choice(refs)
        return Node(n, vt, lambda rt, sc: sc.get(n))

    # paths ----------------------------------------------------------------

    def typepaths(self, t, want, depth=2):
        """[(steps, type)]; a step is ("array", items) | ("map", values) | ("record", field)"""
        out = []
        if want is None or accepts(want, t, self.env):
            out.append(([], t))
        if depth > 0:
            if t[0] in ("array", "map"):
                out += [([(t[0], None)] + p, x) for p, x in self.typepaths(t[1], want, depth - 1)]
            elif t[0] == "record":
                for f in self.env.records[t[1]]:
                    out += [([("record", f[0])] + p, x) for p, x in self.typepaths(f[1], want, depth - 1)]
        return out

    def varpaths(self, t, sc):
        out = []
        for n, vt in sorted(sc.visible().items()):
            if vt[0] in ("array", "map", "record"):
                out += [(n, vt, p, x) for p, x in self.typepaths(vt, t) if p]
        return out

    def mkpath(self, steps, depth, sc):
        """[(kind, Node)]"""
        out = []
        inner = sc.sealed()
        for kind, f in steps:
            if kind == "record":
                node = self.d.choice([Node([f], STRING, lambda rt, s, f=f: f), Node({"string": f}, STRING, lambda rt, s, f=f: f)])
            elif kind == "array":
                if self.d.chance(3, 4):
                    i = self.d.choice([0, 0, 0, 1, 1, 2, 3, -1])
                    node = Node(i if i >= 0 or self.d.bool() else {"int": i}, INT, lambda rt, s, i=i: i)
                else:
                    node = self.expr(self.d.choice([INT, LONG]), depth - 1, inner)
            else:
                if self.d.chance(3, 4):
                    k = self.d.choice(KEYS)
                    node = Node([k], STRING, lambda rt, s, k=k: k)
                else:
                    node = self.expr(STRING, depth - 1, inner)
            out.append((kind, node))
        return out

    @staticmethod
    def evpath(path, rt, sc):
        inner = RScope(sc)
        return [(kind, n.ev(rt, inner)) for kind, n in path]

    def attrget(self, paths, depth, sc):
        d = self.d
        n, vt, steps, x = d.choice(paths)
        path = self.mkpath(steps, depth, sc)
        self.features.add("attr")

        def ev(rt, s):
            v = s.get(n)
            return path_get(v, self.evpath(path, rt, s), 2000, 2001)
        # dotted form when every index is a literal
        words = [n]
        for kind, p in path:
            j = p.json
            if isinstance(j, list) and j[0].isidentifier():
                words.append(j[0])
            elif isinstance(j, int) and kind == "array" and j >= 0:
                words.append(str(j))
            else:
                words = None
                break
        if words and d.chance(3, 4):
            return Node(".".join(words), x, ev)
        return Node({"attr": n, "path": [p.json for _, p in path]}, x, ev)

    def container(self, t, depth, sc):
        return self.expr(t, depth, sc.sealed(), exact=True)

    def updater(self, st, depth, sc, state):
        """what goes into "to": (json, f) with f(rt, sc) -> function old -> new"""
        d = self.d
        env = self.env
        k = d.below(4)
        if state:
            self.nowrite += 1
        try:
            refs = [f for f in self.fns if f.params == [st] and accepts(st, f.ret, env) and not (self.nowrite and f.writes)]
            if k == 3 and refs:
                f = d.choice(refs)
                self.features.add("to-fcnref")
                return {"fcn": "u." + f.name}, lambda rt, sc: (lambda old: conv(self.callfn(f, [old], rt), f.ret, st, env))
            if k == 3:
                fn = self.fillref([st], st, depth, sc)
                if fn:
                    self.features.add("to-fill")
                    return fn[0], lambda rt, sc: (lambda old: fn[1](rt, sc, [old]))
            if k >= 2:
                fn = self.inline([st], st, depth, sc)
                self.features.add("to-inline")
                return fn[0], lambda rt, sc: (lambda old: fn[1](rt, sc, [old]))
        finally:
            if state:
                self.nowrite -= 1
        n = self.expr(st, depth, sc.sealed())

        def f(rt, sc):
            v = conv(n.ev(rt, RScope(sc)), n.st, st, env)
            return lambda old: v
        return n.json, f

    def attrto(self, t, depth, sc):
        paths = [(p, x) for p, x in self.typepaths(t, None) if p]
        if not paths:
            return None
        steps, st = self.d.choice(paths)
        obj = self.container(t, depth, sc)
        path = self.mkpath(steps, depth, sc)
        tj, tf = self.updater(st, depth, sc, False)
        self.features.add("attr-to")

        def ev(rt, s):
            o = obj.ev(rt, RScope(s))
            p = self.evpath(path, rt, s)
            f = tf(rt, s)
            return path_set(o, p, f, 2002, 2003)
        return Node({"attr": obj.json, "path": [p.json for _, p in path], "to": tj}, t, ev)

    def cellget(self, t, depth, sc):
        cands = [(n, p, x) for n, c in sorted(self.cells.items()) for p, x in self.typepaths(c[0], t)]
        n, steps, x = self.d.choice(cands)
        path = self.mkpath(steps, depth, sc)
        self.features.add("cell")

        def ev(rt, s):
            # the cell is read before its path is evaluated only when the path is free of effects (it is: see mkpath)
            p = self.evpath(path, rt, s)
            return path_get(rt.cells[n], p, 2004, 2005)
        j = {"cell": n}
        if path or self.d.chance(1, 5):
            j["path"] = [p.json for _, p in path]
        return Node(j, x, ev)

    def cellto(self, n, depth, sc, steps=None):
        ct = self.cells[n][0]
        steps, st = self.d.choice(self.typepaths(ct, None))
        self.instate += 1
        path = self.mkpath(steps, depth, sc)
        tj, tf = self.updater(st, depth, sc, True)
        self.instate -= 1
        self.features.add("cell-to")

        def ev(rt, s):
            p = self.evpath(path, rt, s)
            f = tf(rt, s)
            new = path_set(rt.cells[n], p, f, 2006, 2007)
            rt.cells[n] = new
            return new
        j = {"cell": n, "to": tj}
        if path:
            j["path"] = [p.json for _, p in path]
        return Node(j, ct, ev)

    def keynode(self, depth, sc):
        if self.d.chance(3, 4):
            k = self.d.choice(KEYS)
            return Node([k], STRING, lambda rt, s: k)
        return self.expr(STRING, depth - 1, sc.sealed())

    def poolget(self, t, depth, sc):
        cands = [(n, p, x) for n, c in sorted(self.pools.items()) for p, x in self.typepaths(c[0], t)]
        n, steps, x = self.d.choice(cands)
        path = self.mkpath([("map", None)] + steps, depth, sc)
        self.features.add("pool")
        return Node({"pool": n, "path": [p.json for _, p in path]}, x, lambda rt, s: path_get(rt.pools[n], self.evpath(path, rt, s), 2008, 2009))

    def poolto(self, n, depth, sc):
        pt = self.pools[n][0]
        env = self.env
        steps, st = self.d.choice(self.typepaths(pt, None))
        path = self.mkpath([("map", None)] + steps, depth, sc)
        tj, tf = self.updater(st, depth, sc, True)
        self.nowrite += 1
        init = self.expr(pt, depth, sc.sealed())
        self.nowrite -= 1
        self.features.add("pool-to")

        def ev(rt, s):
            p = self.evpath(path, rt, s)
            f = tf(rt, s)
            iv = conv(init.ev(rt, RScope(s)), init.st, pt, env)
            key, rest = p[0][1], p[1:]
            old = rt.pools[n][key] if key in rt.pools[n] else iv
            new = path_set(old, rest, f, 2010, 2011)
            rt.pools[n] = dict(rt.pools[n])
            rt.pools[n][key] = new
            return new
        return Node({"pool": n, "path": [p.json for _, p in path], "to": tj, "init": init.json}, pt, ev)

    def pooldel(self, n, depth, sc):
        key = self.keynode(depth, sc)
        self.features.add("pool-del")

        def ev(rt, s):
            k = key.ev(rt, RScope(s))
            if k in rt.pools[n]:
                rt.pools[n] = {a: b for a, b in rt.pools[n].items() if a != k}
            return None
        return Node({"pool": n, "del": key.json}, NULL, ev)

    # blocks -------------------------------------------------------------------

    def body(self, t, depth, sc, exact=True, lo=1, hi=3, allow_error=False):
        """sequence of expressions in scope sc (mutated by its lets); the last one has type t (or raises: st None)"""
        d = self.d
        nodes = []
        for _ in range(d.int(lo, hi) - 1):
            nodes.append(self.statement(depth, sc))
        if allow_error and self.errors and d.chance(1, 8):
            last = self.errornode()
        else:
            last = self.expr(t, depth, sc, exact=exact)
        nodes.append(last)

        def ev(rt, s):
            v = None
            for n in nodes:
                rt.tick()
                v = n.ev(rt, s)
            return v
        js = [n.json for n in nodes]
        return Node(js[0] if len(js) == 1 and not isinstance(js[0], (list, tuple)) and d.bool() else js, last.st, ev)

    def errornode(self):
        d = self.d
        msg = d.choice(["boom", "bad", "oops"])
        self.features.add("error")
        if d.bool():
            code = -d.int(1, 3)

            def ev(rt, s):
                raise UserErr(msg, code)
            return Node({"error": msg, "code": code}, None, ev)

        def ev(rt, s):
            raise UserErr(msg, None)
        return Node({"error": msg}, None, ev)

    def doblock(self, t, depth, sc):
        b = self.body(t, depth, sc.sub(), exact=False)
        return Node({"do": b.json}, b.st, lambda rt, s: b.ev(rt, RScope(s)))

    def ifelse(self, t, depth, sc):
        p = self.expr(BOOLEAN, depth, sc.sealed())
        a = self.body(t, depth, sc.sub(), allow_error=True)
        b = self.body(t, depth, sc.sub(), allow_error=a.st is not None)
        return Node({"if": p.json, "then": a.json, "else": b.json}, t,
                    lambda rt, s: (a if p.ev(rt, RScope(s)) else b).ev(rt, RScope(s)))

    def cond(self, t, depth, sc, complete=True):
        cl = []
        for _ in range(self.d.int(1, 3)):
            cl.append((self.expr(BOOLEAN, depth, sc.sealed()), self.body(t, depth, sc.sub())))
        e = self.body(t, depth, sc.sub()) if complete else None

        def ev(rt, s):
            for p, b in cl:
                if p.ev(rt, RScope(s)):
                    v = b.ev(rt, RScope(s))
                    return v if complete else None
            return e.ev(rt, RScope(s)) if complete else None
        j = {"cond": [{"if": p.json, "then": b.json} for p, b in cl]}
        if complete:
            j["else"] = e.json
        self.features.add("cond")
        return Node(j, t if complete else NULL, ev)

    def unionexpr(self, depth, sc, nullable=False):
        d = self.d
        vs = [(n, t) for n, t in sorted(sc.visible().items()) if t[0] == "union" and (not nullable or NULL in t[1])]
        if vs and d.chance(3, 4):
            n, t = d.choice(vs)
            return Node(n, t, lambda rt, s: s.get(n))
        t = self.utype(1)
        if nullable and NULL not in t[1]:
            t = UNION(*(t[1][:2] + (NULL,)))
        return self.expr(t, depth, sc.sealed(), exact=True)

    def castcase(self, t, depth, sc, partial=False):
        d = self.d
        e = self.unionexpr(depth, sc)
        members = d.shuffle(e.st[1])
        if partial:
            members = members[:d.int(1, len(members))]
        cases = {}
        js = []
        for m in members:
            inner = sc.sub()
            # a name that is not visible: the document may shadow here, but its meaning then depends on nothing new
            nm = self.fresh(sc)
            inner.vars[nm] = m
            b = self.body(t, depth, inner)
            cases[tag(m)] = (nm, b)
            js.append({"as": tojson(m), "named": nm, "do": b.json})
        self.features.add("cast")

        def ev(rt, s):
            v = e.ev(rt, RScope(s))
            tg, val = ("null", None) if v is None else (v.tag, v.v)
            if tg not in cases:
                return None
            nm, b = cases[tg]
            inner = RScope(s)
            inner.vars[nm] = val
            r = b.ev(rt, inner)
            return None if partial else r
        j = {"cast": e.json, "cases": js}
        if partial:
            j["partial"] = True
        return Node(j, NULL if partial else t, ev)

    def ifnotnull(self, t, depth, sc, full=True):
        d = self.d
        names, exprs, types = [], [], []
        for _ in range(d.int(1, 2)):
            e = self.unionexpr(depth, sc, nullable=True)
            rest = tuple(x for x in e.st[1] if x != NULL)
            names.append(self.fresh(sc, names))
            exprs.append(e)
            types.append(rest[0] if len(rest) == 1 else ("union", rest))
        inner = sc.sub()
        inner.vars.update(zip(names, types))
        a = self.body(t, depth, inner.sub())
        b = self.body(t, depth, sc.sub()) if full else None
        self.features.add("ifnotnull")

        def ev(rt, s):
            outer = RScope(s)
            vals = [e.ev(rt, outer) for e in exprs]
            if all(v is not None for v in vals):
                i = RScope(s)
                for n, v, ty in zip(names, vals, types):
                    i.vars[n] = v if ty[0] == "union" else v.v
                r = a.ev(rt, RScope(i))
                return r if full else None
            return b.ev(rt, RScope(s)) if full else None
        j = {"ifnotnull": dict(zip(names, [e.json for e in exprs])), "then": a.json}
        if full:
            j["else"] = b.json
        return Node(j, t if full else NULL, ev)

    def upcast(self, t, depth, sc):
        n = self.expr(t, depth, sc.sealed())
        self.features.add("upcast")
        u = self.up(n, t)
        return Node(u.json, t, lambda rt, s: u.ev(rt, RScope(s)))

    def trycatch(self, t, depth, sc):
        d = self.d
        env = self.env
        inner = sc.sealed()
        members = [x for x in t[1] if x != NULL]
        m = d.choice(members)
        n = self.expr(m if d.chance(3, 4) else t, depth, inner)
        st = n.st
        if st == NULL:
            return None
        pre = []
        if self.errors and d.chance(1, 3):
            pre = [self.maybe_error(depth, inner)]
        filt = d.choice([None, None, ["boom"], [-1], ["bad", -2], ["oops", "boom"], [2000, 2001, -3]])
        rtype = st if st[0] == "union" and NULL in st[1] else (UNION(*(st[1] + (NULL,))) if st[0] == "union" else UNION(st, NULL))
        self.features.add("try")
        self.features.add("try-filter" if filt else "try-all")

        def ev(rt, s):
            i = RScope(s)
            try:
                for p in pre:
                    p.ev(rt, i)
                return conv(n.ev(rt, i), st, rtype, env)
            except UserErr as e:
                if filt is None or e.message in filt or (e.code is not None and e.code in filt):
                    return None
                raise
            except Err as e:
                if filt is None or e.code in filt:
                    return None
                raise
        js = [p.json for p in pre] + [n.json]
        j = {"try": js if len(js) > 1 or isinstance(js[0], list) or d.bool() else js[0]}
        if filt is not None:
            j["filter"] = filt
        return Node(j, rtype, ev)

    def maybe_error(self, depth, sc):
        p = self.expr(BOOLEAN, depth, sc.sealed())
        e = self.errornode()

        def ev(rt, s):
            if p.ev(rt, RScope(s)):
                e.ev(rt, s)
            return None
        return Node({"if": p.json, "then": e.json}, NULL, ev)

    # functions ---------------------------------------------------------------

    def inline(self, ptypes, ret, depth, sc):
        """(json, call(rt, sc, args))"""
        inner = sc.sub(above=True)
        names = []
        for t in ptypes:
            # a parameter may shadow a variable of the enclosing scope
            vis = [n for n in sc.visible() if n not in ("input", "tally") and n not in names]
            nm = self.d.choice(sorted(vis)) if vis and self.d.chance(1, 6) else self.fresh(sc, names)
            names.append(nm)
            inner.vars[nm] = t
        b = self.body(ret, depth, inner)
        env = self.env

        def call(rt, s, args):
            rt.tick()
            i = RScope(s)
            i.vars.update(zip(names, args))
            return conv(b.ev(rt, i), b.st, ret, env)
        return {"params": [{n: tojson(t)} for n, t in zip(names, ptypes)], "ret": tojson(ret), "do": b.json}, call

    def callfn(self, f, args, rt):
        rt.tick()
        s = RScope(None)
        s.vars.update(zip([n for n in f.names], args))
        v = f.body.ev(rt, s)
        return conv(v, f.body.st, f.ret, self.env)

    def fcn(self, ptypes, ret, depth, sc, state=False):
        """a callback of exactly these types: a user function reference or an inline function"""
        refs = [f for f in self.fns if f.params == ptypes and f.ret == ret and not (self.nowrite and f.writes)]
        if refs and self.d.bool():
            f = self.d.choice(refs)
            self.features.add("fcnref")
            return {"fcn": "u." + f.name}, lambda rt, s, args: self.callfn(f, args, rt)
        filled = self.fillref(ptypes, ret, depth, sc) if self.d.bool() else None
        if filled:
            return filled
        self.features.add("inline")
        return self.inline(ptypes, ret, depth, sc)

    def fillref(self, ptypes, ret, depth, sc):
        """a user function with some of its parameters filled in"""
        fills = [(f, at) for f in self.fns if f.ret == ret and len(f.params) > len(ptypes) and not (self.nowrite and f.writes)
                 for at in itertools.combinations(range(len(f.params)), len(ptypes)) if [f.params[i] for i in at] == ptypes]
        if fills:
            f, at = self.d.choice(fills)
            rest = [i for i in range(len(f.params)) if i not in at]
            nodes = [self.argexpr(f.params[i], depth, sc) for i in rest]
            self.features.add("fcnref-fill")

            def call(rt, s, args):
                filled = [conv(n.ev(rt, RScope(s)), n.st, f.params[i], self.env) for n, i in zip(nodes, rest)]
                vals = dict(zip(rest, filled))
                vals.update(zip(at, args))
                return self.callfn(f, [vals[i] for i in range(len(f.params))], rt)
            return {"fcn": "u." + f.name, "fill": {f.names[i]: n.json for i, n in zip(rest, nodes)}}, call
        return None

    def usercall(self, t, depth, sc):
        d = self.d
        env = self.env
        cands = [f for f in self.fns if accepts(t, f.ret, env) and not (self.nowrite and f.writes)]
        if not cands:
            return None
        f = d.choice(cands)
        args = [self.argexpr(p, depth - 1, sc) for p in f.params]
        self.features.add("usercall")

        def ev(rt, s):
            i = RScope(s)
            return self.callfn(f, [conv(a.ev(rt, i), a.st, p, env) for a, p in zip(args, f.params)], rt)
        js = [a.json for a in args]
        return Node({"u." + f.name: js if len(js) != 1 or isinstance(js[0], list) or d.bool() else js[0]}, f.ret, ev)

    def argexpr(self, t, depth, sc):
        """argument of a function with a parameter of type t: members of unions are matched exactly in signatures"""
        return self.expr(t, depth, sc.sealed(), exact=avt.contains(t, lambda x: x[0] == "union", self.env))

    def make_fns(self):
        d = self.d
        for i in range(d.below(self.maxfns + 1)):
            ptypes = [self.type(1) for _ in range(d.below(3))]
            if d.chance(1, 3) and ptypes:
                ret = ptypes[0]
                ptypes = ptypes[:1] if d.chance(2, 3) else d.shuffle(ptypes + [self.type(1)])
            else:
                ret = self.type(1)
            f = Fn(d.choice(["f", "g", "h", "fn.sub"]) + str(i), ptypes, ret)
            f.names = ["p%d" % j if d.bool() else NAMES[j] for j in range(len(ptypes))]
            sc = SScope(None, True, False)
            sc.vars.update(zip(f.names, ptypes))
            # whether it writes state is only known afterwards
            before = self.features
            self.features = set()
            self.budget = max(self.budget, 15)
            wr0 = self.nowrite
            if d.bool():
                self.nowrite += 1
            f.body = self.body(ret, 2, sc, exact=False, allow_error=False)
            self.nowrite = wr0
            f.writes = bool(self.features & {"cell-to", "pool-to", "pool-del", "calls-writer"} or not self.emit_in_state and "emit" in self.features)
            if any(g.writes for g in self.fns):
                f.writes = True        # conservative
            self.features |= before
            f.json = {"params": [{n: tojson(t)} for n, t in zip(f.names, ptypes)], "ret": tojson(ret), "do": f.body.json}
            self.fns.append(f)

    # constructors and library --------------------------------------------------

    def new(self, t, depth, sc):
        d = self.d
        env = self.env
        inner = sc.sealed()
        if t[0] == "array":
            items = [self.expr(t[1], depth - 1, inner) for _ in range(d.below(4))]
            self.features.add("new-array")
            return Node({"type": tojson(t), "new": [x.json for x in items]}, t,
                        lambda rt, s: [conv(x.ev(rt, RScope(s)), x.st, t[1], env) for x in items])
        if t[0] == "map":
            fields = [(k, t[1]) for k in d.sample(KEYS, d.below(3))]
        else:
            fields = [(f[0], f[1]) for f in env.records[t[1]]]
        self.features.add("new-object")
        # the order in which fields are evaluated is not part of the language: at most the last one may have effects
        nodes = []
        for i, (k, ft) in enumerate(fields):
            nodes.append((k, ft, self.pure(ft, depth - 1, inner)))

        def ev(rt, s):
            return {k: conv(n.ev(rt, RScope(s)), n.st, ft, env) for k, ft, n in nodes}
        return Node({"type": tojson(t), "new": {k: n.json for k, _, n in nodes}}, t, ev)

    def pure(self, t, depth, sc):
        """expression without effects and (statically) unable to fail: a reference or a literal, or a simple operation on them"""
        d = self.d
        if self.bad_countdown is not None:
            return self.expr(t, 0, sc)
        refs = self.refs(t, sc)
        if refs and d.chance(2, 3):
            return self.ref(refs)
        if t in (BOOLEAN,) and d.bool():
            return self.compare(0, sc)
        if t == DOUBLE and d.bool():
            a = self.pure(DOUBLE, 0, sc)
            b = self.literal(DOUBLE)
            env = self.env
            return Node({"+": [a.json, b.json]}, DOUBLE, lambda rt, s: conv(a.ev(rt, s), a.st, DOUBLE, env) + b.ev(rt, s))
        return self.literal(t)

    def args(self, types, depth, sc):
        return [self.expr(t, depth, sc.sealed(), exact=True) for t in types]

    def call(self, name, args, ret, f):
        """library function of already exact arguments; f(*values)"""
        def ev(rt, s):
            return f(*[a.ev(rt, RScope(s)) for a in args])
        return Node({name: [a.json for a in args]}, ret, ev)

    def arith(self, t, depth, sc):
        d = self.d
        env = self.env
        op, code = d.choice([("+", 18000), ("-", 18010), ("*", 18020)])
        a = self.expr(t, depth, sc.sealed())
        b = self.expr(t, depth, sc.sealed())
        order = ["int", "long", "float", "double"]
        st = (order[max(order.index(a.st[0]), order.index(b.st[0]))],) if a.st[0] in order and b.st[0] in order else None
        if st is None:
            return None

        def ev(rt, s):
            x = conv(a.ev(rt, RScope(s)), a.st, st, env)
            y = conv(b.ev(rt, RScope(s)), b.st, st, env)
            v = x + y if op == "+" else x - y if op == "-" else x * y
            if st == INT and not IMIN <= v <= IMAX:
                raise Err(code)
            if st == LONG and not LMIN <= v <= LMAX:
                raise Err(code + 1)
            return v
        return Node({op: [a.json, b.json]}, st, ev)

    def numfn(self, t, depth, sc):
        d = self.d
        env = self.env
        if t == INT or d.chance(1, 2):
            et = self.type(1)
            k = d.below(3)
            if k == 0:
                a, = self.args([ARRAY(et)], depth, sc)
                return self.call("a.len", [a], INT, len)
            if k == 1:
                a, = self.args([STRING], depth, sc)
                return self.call("s.len", [a], INT, len)
            a, = self.args([MAP(et)], depth, sc)
            return self.call("map.len", [a], INT, len)
        op = d.choice(["max", "min"])
        a, b = self.args([t, t], depth, sc)
        return self.call(op, [a, b], t, (lambda x, y: max(x, y)) if op == "max" else (lambda x, y: min(x, y)))

    def compare(self, depth, sc):
        d = self.d
        env = self.env
        t = d.choice([INT, LONG, DOUBLE, STRING, BOOLEAN, BYTES, INT, INT])
        op = d.choice(["==", "!=", "<", "<=", ">", ">="])
        if depth <= 0:
            a, b = [self.up(n, t) if n.st != t else n for n in (self.simple(t, sc), self.simple(t, sc))]
        else:
            a, b = self.args([t, t], depth, sc)

        def f(x, y):
            c = avt.model_compare(x, y, t, env)
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        return self.call(op, [a, b], BOOLEAN, f)

    def simple(self, t, sc):
        refs = self.refs(t, sc)
        if refs and self.d.chance(2, 3):
            return self.ref(refs)
        return self.literal(t)

    def boolean(self, depth, sc):
        d = self.d
        k = d.below(6)
        if k < 3:
            return self.compare(depth, sc)
        if k == 3:
            a, = self.args([BOOLEAN], depth, sc)
            return self.call("!", [a], BOOLEAN, lambda x: not x)
        a = self.expr(BOOLEAN, depth, sc.sealed())
        b = self.expr(BOOLEAN, depth, sc.sealed())
        self.features.add("shortcircuit")
        if k == 4:
            return Node({"&&": [a.json, b.json]}, BOOLEAN, lambda rt, s: b.ev(rt, RScope(s)) if a.ev(rt, RScope(s)) else False)
        return Node({"||": [a.json, b.json]}, BOOLEAN, lambda rt, s: True if a.ev(rt, RScope(s)) else b.ev(rt, RScope(s)))

    def sconcat(self, depth, sc):
        a, b = self.args([STRING, STRING], depth, sc)

        def f(x, y):
            if len(x) + len(y) > 2000:
                raise Discard()
            return x + y
        return self.call("s.concat", [a, b], STRING, f)

    def arrayfn(self, t, depth, sc):
        d = self.d
        k = d.below(5)
        if k == 0:
            a, x = self.args([t, t[1]], depth, sc)
            return self.call("a.append", [a, x], t, lambda a, x: self.small(a) + [x])
        if k == 1:
            a, b = self.args([t, t], depth, sc)
            return self.call("a.concat", [a, b], t, lambda a, b: self.small(a) + b)
        if k == 2:
            a, = self.args([t], depth, sc)
            return self.call("a.tail", [a], t, lambda a: a[1:] if a else self.err(15030))
        if k == 3:
            src = self.type(1)
            a, = self.args([ARRAY(src)], depth, sc)
            fj, fc = self.fcn([src], t[1], depth, sc)
            return Node({"a.map": [a.json, fj]}, t, lambda rt, s: (lambda xs: [fc(rt, s, [x]) for x in xs])(a.ev(rt, RScope(s))))
        a, = self.args([t], depth, sc)
        fj, fc = self.fcn([t[1]], BOOLEAN, depth, sc)
        return Node({"a.filter": [a.json, fj]}, t, lambda rt, s: (lambda xs: [x for x in xs if fc(rt, s, [x])])(a.ev(rt, RScope(s))))

    @staticmethod
    def small(a):
        if len(a) > 200:
            raise Discard()
        return list(a)

    @staticmethod
    def err(code):
        raise Err(code)

    def lib_any(self, t, depth, sc):
        d = self.d
        k = d.below(3)
        if k == 0:
            p, a, b = self.args([BOOLEAN, t, t], depth, sc)
            return self.call("ifelse", [p, a, b], t, lambda p, a, b: a if p else b) if False else None
        if k == 1:
            a, = self.args([ARRAY(t)], depth, sc)
            return self.call("a.head", [a], t, lambda a: a[0] if a else self.err(15020))
        src = self.type(0)
        a, z = self.args([ARRAY(src), t], depth, sc)
        fj, fc = self.fcn([t, src], t, depth, sc)
        self.features.add("a.fold")

        def ev(rt, s):
            xs = a.ev(rt, RScope(s))
            acc = z.ev(rt, RScope(s))
            for x in xs:
                acc = fc(rt, s, [acc, x])
            return acc
        return Node({"a.fold": [a.json, z.json, fj]}, t, ev)

    # statements ------------------------------------------------------------

    def statement(self, depth, sc):
        d = self.d
        opts = []
        if not sc.within:
            opts.append((8, lambda: self.let(depth, sc)))
            ws = [n for n in sorted(sc.visible()) if sc.writable(n)]
            if ws:
                opts.append((8, lambda: self.set(ws, depth, sc)))
        if not self.nowrite:
            if self.cells:
                opts.append((5, lambda: self.cellto(d.choice(sorted(self.cells)), depth - 1, sc)))
            if self.pools:
                opts.append((4, lambda: self.poolto(d.choice(sorted(self.pools)), depth - 1, sc)))
                opts.append((2, lambda: self.pooldel(d.choice(sorted(self.pools)), depth - 1, sc)))
        if self.method == "emit" and self.output is not None and not self.noemit and (self.emit_in_state or not self.nowrite):
            opts.append((5, lambda: self.emit(depth - 1, sc)))
        opts.append((1, lambda: self.log(depth - 1, sc)))
        opts.append((1, lambda: Node({"doc": "words"}, NULL, lambda rt, s: None)))
        opts.append((1, lambda: self.literal(NULL)))
        if depth > 0 and self.budget > 0:
            opts += [(3, lambda: self.ifonly(depth - 1, sc)), (2, lambda: self.foreach(depth - 1, sc)), (2, lambda: self.forkv(depth - 1, sc)),
                     (2, lambda: self.forloop(depth - 1, sc)), (1, lambda: self.cond(self.type(1), depth - 1, sc, complete=False)),
                     (1, lambda: self.castcase(self.type(1), depth - 1, sc, partial=True)), (1, lambda: self.ifnotnull(self.type(1), depth - 1, sc, full=False)),
                     (1, lambda: self.doblock(self.type(1), depth - 1, sc))]
            if not sc.within:
                opts.append((3, lambda: self.whileloop(depth - 1, sc)))
            if self.errors:
                opts.append((1, lambda: self.maybe_error(depth - 1, sc)))
        self.budget -= 1
        return d.weighted(opts)()

    def nullstatement(self, depth, sc):
        n = self.statement(depth, sc)
        return n if n.st == NULL else None

    def let(self, depth, sc):
        d = self.d
        pairs = []
        for _ in range(2 if d.chance(1, 6) else 1):
            nm = self.fresh(sc, [p[0] for p in pairs])
            pairs.append((nm, self.expr(self.type(2), depth - 1, sc.sealed())))
        for n, e in pairs:
            sc.vars[n] = e.st

        def ev(rt, s):
            vals = [(n, e.ev(rt, RScope(s))) for n, e in pairs]
            for n, v in vals:
                s.vars[n] = v
            return None
        self.features.add("let")
        return Node({"let": {n: e.json for n, e in pairs}}, NULL, ev)

    def set(self, ws, depth, sc):
        d = self.d
        env = self.env
        vis = sc.visible()
        names = d.sample(ws, 2 if d.chance(1, 6) else 1)
        pairs = [(n, self.expr(vis[n], depth - 1, sc.sealed())) for n in names]

        def ev(rt, s):
            vals = [(n, conv(e.ev(rt, RScope(s)), e.st, vis[n], env)) for n, e in pairs]
            for n, v in vals:
                s.set(n, v)
            return None
        self.features.add("set")
        return Node({"set": {n: e.json for n, e in pairs}}, NULL, ev)

    def emit(self, depth, sc):
        d = self.d
        env = self.env
        e = self.argexpr(self.output, depth, sc)
        self.features.add("emit")

        def ev(rt, s):
            rt.emitted.append(conv(e.ev(rt, RScope(s)), e.st, self.output, env))
            return None
        return Node({"emit": [e.json] if isinstance(e.json, list) or d.bool() else e.json}, NULL, ev)

    def log(self, depth, sc):
        d = self.d
        es = [self.expr(self.type(1), depth, sc.sealed()) for _ in range(d.int(1, 2))]
        ns = d.choice([None, "ns"])

        def ev(rt, s):
            rt.logged.append(([(e.ev(rt, RScope(s)), e.st) for e in es], ns))
            return None
        j = {"log": [e.json for e in es]}
        if ns:
            j["namespace"] = ns
        self.features.add("log")
        return Node(j, NULL, ev)

    def ifonly(self, depth, sc):
        p = self.expr(BOOLEAN, depth, sc.sealed())
        a = self.body(self.type(1), depth, sc.sub(), allow_error=True)

        def ev(rt, s):
            if p.ev(rt, RScope(s)):
                a.ev(rt, RScope(s))
            return None
        self.features.add("if")
        return Node({"if": p.json, "then": a.json}, NULL, ev)

    def foreach(self, depth, sc):
        d = self.d
        env = self.env
        seq = not d.chance(1, 4)
        a = self.expr(ARRAY(self.type(1)), depth, sc.sealed())
        if a.st[0] != "array":
            return self.literal(NULL)
        nm = self.fresh(sc)
        loop = sc.sub(above=not seq)
        loop.vars[nm] = a.st[1]
        b = self.body(self.type(1), depth, loop.sub())
        self.features.add("foreach")

        def ev(rt, s):
            for x in a.ev(rt, RScope(s)):
                rt.tick()
                l = RScope(s)
                l.vars[nm] = x
                b.ev(rt, RScope(l))
            return None
        j = {"foreach": nm, "in": a.json, "do": b.json}
        if not seq or d.bool():
            j["seq"] = seq
        return Node(j, NULL, ev)

    def forkv(self, depth, sc):
        m = self.expr(MAP(self.type(1)), depth, sc.sealed())
        if m.st[0] != "map":
            return self.literal(NULL)
        k = self.fresh(sc)
        v = self.fresh(sc, [k])
        loop = sc.sub()
        loop.vars[k] = STRING
        loop.vars[v] = m.st[1]
        # entries are visited in an unspecified order: the body may not have order-dependent effects, so it only counts
        cnt = [n for n in sorted(sc.visible()) if sc.writable(n) and sc.visible()[n] in (INT, LONG)]
        self.features.add("forkeyval")
        if cnt and not sc.within:
            c = self.d.choice(cnt)
            t = sc.visible()[c]
            pred = self.d.choice([None, self.d.choice(KEYS)])
            one = {"set": {c: {"+": [c, 1]}}}
            body = one if pred is None else {"if": {"==": [k, [pred]]}, "then": one}

            def ev(rt, s):
                for key in m.ev(rt, RScope(s)):
                    if pred is None or key == pred:
                        nv = s.get(c) + 1
                        if nv > (IMAX if t == INT else LMAX):
                            raise Err(18000 if t == INT else 18001)
                        s.set(c, nv)
                return None
            return Node({"forkey": k, "forval": v, "in": m.json, "do": body}, NULL, ev)
        b = self.pure(self.type(1), 0, loop.sub())

        def ev(rt, s):
            m.ev(rt, RScope(s))
            return None
        return Node({"forkey": k, "forval": v, "in": m.json, "do": [b.json]}, NULL, ev)

    def forloop(self, depth, sc):
        d = self.d
        env = self.env
        nm = self.fresh(sc)
        loop = sc.sub()
        start = d.below(3)
        loop.vars[nm] = INT
        if not d.chance(1, 4):
            loop.frozen.add(nm)         # usually the body leaves the counter alone
        n = d.int(0, 4)
        extra = None
        if d.chance(1, 4):
            extra = self.fresh(sc, [nm])
            e0 = self.expr(self.type(1), depth, loop_init(loop, nm))
            loop.vars[extra] = e0.st
        b = self.body(self.type(1), depth, BodyScope(loop, nm))
        pred = {"<": [nm, n]}
        step = {nm: {"+": [nm, 1]}}
        init = {nm: start}
        e1 = None
        if extra:
            init[extra] = e0.json
            e1 = self.expr(e0.st, max(depth - 1, 0), loop.sealed())
            step[extra] = e1.json
        self.features.add("for")

        def ev(rt, s):
            l = RScope(s)
            if extra:
                v = e0.ev(rt, RScope(s))
                l.vars[extra] = v
            l.vars[nm] = start
            while l.vars[nm] < n:
                rt.tick()
                b.ev(rt, RScope(l))
                nxt = l.vars[nm] + 1
                if nxt > IMAX:
                    raise Err(18000)
                if extra:
                    v = conv(e1.ev(rt, RScope(l)), e1.st, e0.st, env)
                    l.vars[extra] = v
                l.vars[nm] = nxt
            return None
        return Node({"for": init, "while": pred, "step": step, "do": b.json}, NULL, ev)

    def whileloop(self, depth, sc):
        """a counter kept in a variable of its own, declared in a surrounding do"""
        d = self.d
        outer = sc.sub()
        nm = self.fresh(sc)
        outer.vars[nm] = INT
        outer.frozen.add(nm)
        n = d.int(0, 4)
        until = d.bool()
        inner = outer.sub()
        extra = self.statement(depth, inner)
        extra2 = self.statement(depth, inner) if d.bool() else None
        inc = {"set": {nm: {"+": [nm, 1]}}}
        body = [extra.json, inc] + ([extra2.json] if extra2 else [])
        # the predicate may use variables of the body: here a second condition that can end the loop early
        cond2 = self.compare(0, outer.sealed()) if d.chance(1, 3) else None
        self.features.add("until" if until else "while")

        def p2(rt, s, want):
            return want if cond2 is None else cond2.ev(rt, RScope(s))

        def ev(rt, s):
            o = RScope(s)
            o.vars[nm] = 0
            while True:
                rt.tick()
                if not until and not (o.vars[nm] < n and p2(rt, o, True)):
                    return None
                i = RScope(o)
                extra.ev(rt, i)
                o.vars[nm] += 1
                if extra2:
                    extra2.ev(rt, i)
                if until and (o.vars[nm] >= n or (cond2 is not None and cond2.ev(rt, RScope(o)))):
                    return None
        if until:
            p = {">=": [nm, n]}
            if cond2:
                p = {"||": [p, cond2.json]}
            loop = {"do": body, "until": p}
        else:
            p = {"<": [nm, n]}
            if cond2:
                p = {"&&": [p, cond2.json]}
            loop = {"while": p, "do": body}
        return Node({"do": [{"let": {nm: 0}}, loop]}, NULL, ev)

    # ------------------------------------------------------------ ill-typed expressions

    def wrongtype(self, t):
        for x in (STRING, BOOLEAN, NULL, ARRAY(BOOLEAN), MAP(BYTES), BYTES):
            if not accepts(t, x, self.env):
                return x
        return None

    def badexpr(self, sc, t):
        d = self.d
        env = self.env
        lit = lambda t: self.literal(t).json
        recs = [x for x in env.types() if x[0] == "record"]
        kinds = ["unknown variable", "unknown function", "wrong arity", "undeclared set", "bad if predicate", "attr of scalar", "array index type",
                 "map key type", "cast missing case", "cast impossible case", "ifnotnull of non-null", "foreach over scalar", "forkey over array",
                 "unknown cell", "unknown pool", "while predicate", "new array type", "new array item", "new map value", "upcast narrowing",
                 "library argument type", "callback type", "callback arity", "unknown function reference", "inline return type", "let self reference",
                 "empty do", "unclosed form", "duplicate loop name", "set in callback", "seq false", "call arity of library function",
                 "unknown type", "use after scope", "literal value", "let inside argument", "until predicate", "for step unknown", "try let", "bad symbol",
                 "set wrong type", "cell-to wrong type", "pool-to wrong type", "record missing field", "record extra field", "record field type", "record path",
                 "record computed path", "user call type", "user call arity", "emit outside emit engine", "enum literal", "fixed literal", "let exception", "fill argument"]
        k = d.choice(kinds)
        self.badkind = k
        vis = sc.visible()
        i = lit(INT)
        if k == "unknown variable":
            return d.choice(["nosuch", "nosuch.x", {"+": ["nosuch", 1]}, {"attr": "nosuch", "path": [["a"]]}])
        if k == "unknown function":
            return {d.choice(["nosuch.fcn", "u.nosuch", "a.nosuch"]): [i]}
        if k == "wrong arity" or k == "call arity of library function":
            return d.choice([{"+": [i]}, {"+": [i, i, i]}, {"s.len": []}, {"a.len": [{"type": {"type": "array", "items": "int"}, "value": []}, 1]}])
        if k == "undeclared set":
            return {"do": [{"set": {"nosuch": i}}, lit(NULL)]}
        if k == "bad if predicate":
            return d.choice([{"if": i, "then": [i]}, {"if": ["yes"], "then": i, "else": i}, {"cond": [{"if": 1.5, "then": i}]}])
        if k == "while predicate":
            return {"while": i, "do": [i]}
        if k == "until predicate":
            return {"do": [i], "until": ["x"]}
        if k == "attr of scalar":
            return {"attr": {"string": "abc"}, "path": [["a"]]}
        if k == "array index type":
            return {"attr": {"type": {"type": "array", "items": "int"}, "value": [1]}, "path": [d.choice([["a"], {"double": 0.0}, True])]}
        if k == "map key type":
            return {"attr": {"type": {"type": "map", "values": "int"}, "value": {}}, "path": [d.choice([0, True])]}
        U_ = {"type": ["int", "string", "null"], "value": {"int": 3}}
        if k == "cast missing case":
            return {"cast": U_, "cases": [{"as": "int", "named": "q1", "do": ["q1"]}, {"as": "string", "named": "q1", "do": [0]}]}
        if k == "cast impossible case":
            return {"cast": U_, "cases": [{"as": x, "named": "q1", "do": [0]} for x in ("int", "string", "null", "bytes")]}
        if k == "ifnotnull of non-null":
            return {"ifnotnull": {"q1": d.choice([i, {"type": ["int", "string"], "value": {"int": 3}}])}, "then": [0]}
        if k == "foreach over scalar":
            return {"foreach": "q1", "in": i, "do": [0]}
        if k == "forkey over array":
            return {"forkey": "q1", "forval": "q2", "in": {"type": {"type": "array", "items": "int"}, "value": []}, "do": [0]}
        if k == "unknown cell":
            return d.choice([{"cell": "nosuch"}, {"cell": "nosuch", "to": i}])
        if k == "unknown pool":
            return d.choice([{"pool": "nosuch", "path": [["a"]]}, {"pool": "nosuch", "path": [["a"]], "to": i, "init": i}, {"pool": "nosuch", "del": ["a"]}])
        if k == "new array type":
            return d.choice([{"type": "int", "new": [i]}, {"type": {"type": "array", "items": "int"}, "new": {"a": 1}},
                             {"type": {"type": "map", "values": "int"}, "new": [1]}])
        if k == "new array item":
            return {"type": {"type": "array", "items": "int"}, "new": [1, d.choice([2.5, ["x"], None, {"long": 3}])]}
        if k == "new map value":
            return {"type": {"type": "map", "values": "string"}, "new": {"a": d.choice([1, None, True])}}
        if k == "upcast narrowing":
            return {"upcast": d.choice([{"double": 2.5}, {"long": 3}, ["x"]]), "as": "int"}
        if k == "library argument type":
            return d.choice([{"+": [i, ["x"]]}, {"s.len": [i]}, {"a.len": [["x"]]}, {"!": [i]}, {"&&": [True, i]}, {"-": [1, True]}, {"m.abs": [["x"]]}])
        ints = {"type": {"type": "array", "items": "int"}, "value": [1, 2]}
        if k == "callback type":
            return d.choice([{"a.map": [ints, {"params": [{"q1": "string"}], "ret": "int", "do": [0]}]},
                             {"a.filter": [ints, {"params": [{"q1": "int"}], "ret": "int", "do": [0]}]}, {"a.map": [ints, i]}])
        if k == "callback arity":
            return {"a.map": [ints, {"params": [{"q1": "int"}, {"q2": "int"}], "ret": "int", "do": [0]}]}
        strings = {"type": {"type": "array", "items": "string"}, "value": ["a"]}
        if k == "fill argument":
            return {"a.map": [strings, {"fcn": "s.concat", "fill": d.choice([{"y": i}, {"y": None}, {"q": ["x"]}, {"x": {"params": [], "ret": "int", "do": [0]}}])}]}
        if k == "unknown function reference":
            return {"a.map": [ints, {"fcn": "u.nosuch"}]}
        if k == "inline return type":
            return {"a.map": [ints, {"params": [{"q1": "int"}], "ret": "int", "do": [["x"]]}]}
        if k == "let self reference":
            return {"do": [{"let": {"q1": {"+": ["q1", 1]}}}, 0]}
        if k == "empty do":
            return d.choice([{"do": []}, {"if": True, "then": []}, {"foreach": "q1", "in": ints, "do": []}, {"if": True, "then": [i], "else": []}, {"let": {}},
                             {"try": []}, {"cond": []}, {"a.map": [ints, {"params": [{"q1": "int"}], "ret": "int", "do": []}]}])
        if k == "unclosed form":
            return d.choice([{"if": True}, {"then": [1]}, {"foreach": "q1", "in": ints}, {"let": {"q1": 1}, "set": {"q1": 2}}, {"cast": U_}, {"new": [1]},
                             {"type": "int"}, {"path": [["a"]]}, {"forkey": "q1", "in": {}, "do": [0]}, {"code": 3}, {"del": ["a"]}, {}])
        if k == "duplicate loop name" and vis:
            n = d.choice(sorted(vis))
            return d.choice([{"foreach": n, "in": ints, "do": [0]}, {"for": {n: 0}, "while": False, "step": {n: 1}, "do": [0]},
                             {"do": [{"let": {n: 1}}, 0]}, {"do": [{"let": {"q1": 1}}, {"let": {"q1": 2}}, 0]}])
        if k == "set in callback":
            return {"do": [{"let": {"q1": 0}}, {"a.map": [ints, {"params": [{"q2": "int"}], "ret": "int", "do": [{"set": {"q1": 1}}, 0]}]}, 0]}
        if k == "seq false":
            return {"do": [{"let": {"q1": 0}}, {"foreach": "q2", "in": ints, "do": [{"set": {"q1": 1}}], "seq": False}, 0]}
        if k == "unknown type":
            return {"type": {"type": "array", "items": "NoSuchType"}, "value": []}
        if k == "use after scope":
            return d.choice([{"do": [{"do": [{"let": {"q1": 1}}]}, "q1"]}, {"do": [{"foreach": "q1", "in": ints, "do": [0]}, "q1"]},
                             {"do": [{"if": True, "then": [{"let": {"q1": 1}}], "else": ["q1"]}, 0]},
                             {"do": [{"ifnotnull": {"q1": {"type": ["int", "null"], "value": None}}, "then": [0], "else": ["q1"]}, 0]},
                             {"do": [{"while": {"==": ["q1", 1]}, "do": [{"let": {"q2": 1}}]}, 0]}])
        if k == "literal value":
            return {"type": d.choice(["int", {"type": "array", "items": "int"}, {"type": "map", "values": "int"}, "boolean"]),
                    "value": d.choice(["x", [["a"]], {"a": "b"}, {"a": []}])}
        if k == "let inside argument":
            return {"+": [{"let": {"q1": 1}}, 1]} if d.bool() else {"s.len": [{"let": {"q1": 1}}]}
        if k == "for step unknown":
            return {"for": {"q1": 0}, "while": {"<": ["q1", 1]}, "step": {"q2": 1}, "do": [0]}
        if k == "try let":
            return {"try": [{"let": {"q1": 1}}, 0]}
        if k == "bad symbol":
            return d.choice([{"do": [{"let": {"1x": 1}}, 0]}, {"foreach": "a-b", "in": ints, "do": [0]}, "9x", "a b", {"fcn": "u.1"},
                             {"forkey": "", "forval": "q", "in": ints, "do": [0]}, {"ifnotnull": {"1q": {"type": ["int", "null"], "value": None}}, "then": [0]},
                             {"cast": U_, "cases": [{"as": "int", "named": "1q", "do": [0]}]},
                             {"a.map": [ints, {"params": [{"1q": "int"}], "ret": "int", "do": [0]}]}])
        if k == "set wrong type":
            return {"do": [{"let": {"q1": 0}}, {"set": {"q1": d.choice([2.5, ["x"], None, {"long": 3}])}}, 0]}
        if k in ("cell-to wrong type", "pool-to wrong type"):
            what = self.cells if k[0] == "c" else self.pools
            for n, c in sorted(what.items()):
                w = self.wrongtype(c[0])
                if w is not None:
                    if k[0] == "c":
                        return d.choice([{"cell": n, "to": lit(w)}, {"cell": n, "to": {"params": [{"q1": tojson(w)}], "ret": tojson(w), "do": ["q1"]}}])
                    return d.choice([{"pool": n, "path": [["a"]], "to": lit(w), "init": lit(c[0])}, {"pool": n, "path": [["a"]], "to": lit(c[0]), "init": lit(w)},
                                     {"pool": n, "path": [0], "to": lit(c[0]), "init": lit(c[0])}, {"pool": n, "del": 3}])
        if k.startswith("record") and recs:
            r = d.choice(recs)
            fs = env.records[r[1]]
            good = {f[0]: lit(f[1]) for f in fs}
            if k == "record missing field":
                del good[d.choice(fs)[0]]
                return {"type": r[1], "new": good}
            if k == "record extra field":
                good["nosuch"] = 1
                return {"type": r[1], "new": good}
            if k == "record field type":
                f = d.choice(fs)
                w = self.wrongtype(f[1])
                if w is not None:
                    good[f[0]] = lit(w)
                    return {"type": r[1], "new": good}
            if k == "record path":
                return {"attr": {"type": r[1], "new": good}, "path": [["nosuch"]]}
            return {"attr": {"type": r[1], "new": good}, "path": [{"s.concat": [[fs[0][0]], [""]]}]}
        if k.startswith("user call") and self.fns:
            f = d.choice(self.fns)
            args = [lit(p) for p in f.params]
            if k == "user call arity":
                return {"u." + f.name: args + [0]}
            for j, p in enumerate(f.params):
                w = self.wrongtype(p)
                if w is not None:
                    args[j] = lit(w)
                    return {"u." + f.name: args}
        if k == "emit outside emit engine" and self.method != "emit":
            return {"emit": [i]}
        if k == "enum literal":
            return {"type": {"type": "enum", "name": "Zenum", "symbols": ["A"]}, "value": d.choice(["B", 1, None])}
        if k == "fixed literal":
            return {"type": {"type": "fixed", "name": "Zfix", "size": 2}, "value": d.choice(["B", 1, None, "abc"])}
        if k == "let exception":
            return {"do": [{"let": {"q1": {"error": "x"}}}, 0]}
        self.badkind = "unknown variable"
        return "nosuch"


class BodyScope(SScope):
    """child of a for-loop scope in which a frozen counter may not be assigned"""
    def __init__(self, loop, nm):
        SScope.__init__(self, loop)

    def writable(self, n):
        if n in self.vars:
            return True
        if n in self.parent.frozen:
            return False
        return self.parent.writable(n)


def loop_init(loop, nm):
    """scope in which a for-initializer is evaluated (before any loop variable exists)"""
    return SScope(loop.parent, True, True)


# ------------------------------------------------------------------ whole documents

def within(j, x):
    """is this very object (equal, for a string) part of the JSON document?"""
    if j is x or isinstance(x, str) and j == x:
        return True
    if isinstance(j, dict):
        return any(within(v, x) for v in j.values())
    return isinstance(j, list) and any(within(v, x) for v in j)


class Program(object):
    """A generated document (self.doc) with its reference engine."""

    def __init__(self, d, method=None, env=None, bad=None, nonull=False, intype=None, **kw):
        self.d = d
        self.method = method or d.choice(["map", "map", "emit", "fold"])
        g = self.g = Gen(d, env=env, method=self.method, bad=None, **kw)
        env = self.env = g.env
        self.declcells = {}
        self.name = d.choice([None, "Engine_A", "E"])
        self.version = d.choice([None, None, 3])
        self.metadata = d.choice([{}, {"k": "v"}])
        # input
        if intype is not None:
            self.given_input(intype)
        nf = d.int(1, 4) if intype is None else 0
        fields = [("x%d" % i, g.type(2), {}) for i in range(nf)]
        self.fields = fields
        declared = set()
        docfields = [{"name": n, "type": tojson(t, env, declared)} for n, t, _ in fields]
        for i, t in enumerate(env.types()) if intype is None else ():
            if t[1] not in declared:
                fields.append(("decl%d" % i, ARRAY(t), {}))
                docfields.append({"name": "decl%d" % i, "type": {"type": "array", "items": tojson(t, env, declared)}})
        self.simple_input = intype is not None or not env.order and d.chance(1, 5)
        if intype is not None:
            pass
        elif self.simple_input:
            self.intype = fields[0][1]
            self.injson = tojson(self.intype, env)
        else:
            env.records["In"] = fields
            self.intype = ("record", "In")
            self.injson = {"type": "record", "name": "In", "fields": docfields}
        self.output = g.type(2)
        g.output = self.output
        # state
        self.cells0, self.pools0 = {}, {}
        for i in range(d.below(g.maxcells + 1)):
            t = g.type(2)
            g.cells["c%d" % i] = (t,)
            self.cells0["c%d" % i] = g.value(t)
        for i in range(d.below(g.maxcells + 1)):
            t = g.type(2)
            g.pools["p%d" % i] = (t,)
            self.pools0["p%d" % i] = {k: g.value(t) for k in d.sample(KEYS, d.below(3))}
        self.shared = {n: g.shared and d.bool() for n in list(self.cells0) + list(self.pools0)}
        self.roll = {n: g.rollback and not self.shared[n] and d.bool() for n in self.shared}
        g.make_fns()
        # bodies
        common = {"name": STRING, "instance": INT, "metadata": MAP(STRING)}
        if self.version is not None:
            common["version"] = INT
        g.bad_countdown = bad
        self.begin = self.section(common, None) if d.chance(1, 3) else None
        act = dict(common, input=self.intype, actionsStarted=LONG, actionsFinished=LONG)
        if self.method == "fold":
            act["tally"] = self.output
            self.zero = g.value(self.output)
        self.action = self.section(act, self.output if self.method != "emit" else None)
        e = dict(act)
        del e["input"]
        self.end = self.section(e, None) if d.chance(1, 3) else None
        self.merge = None
        if self.method == "fold":
            self.merge = self.section(dict(common, tallyOne=self.output, tallyTwo=self.output), self.output)
        self.doc = self.document()
        self.bad = g.badkind
        if bad is not None and (self.bad is None or not within(self.doc, g.badjson)):
            raise Discard()

    def given_input(self, t):
        """the input type is given; types it does not mention are declared by cells that nothing uses"""
        declared = set()
        self.intype, self.injson = t, tojson(t, self.env, declared)
        self.declcells = {}
        for i, x in enumerate(self.env.types()):
            if x[1] not in declared:
                self.declcells["decl%d" % i] = {"type": {"type": "array", "items": tojson(x, self.env, declared)}, "init": []}

    def section(self, predeclared, ret):
        g = self.g
        top = SScope(None)
        top.vars.update(predeclared)
        sc = top.sub(above=True)
        g.budget = self.d.choice([10, 25, 60])
        if ret is None:
            return g.body(g.type(1), g.depth, sc, exact=False, hi=4)
        return g.body(ret, g.depth, sc, exact=False, hi=4)

    def document(self):
        env = self.env
        doc = {"input": self.injson, "output": tojson(self.output), "action": self.action.json}
        if self.method != "map" or self.d.bool():
            doc["method"] = self.method
        if self.name:
            doc["name"] = self.name
        if self.version is not None:
            doc["version"] = self.version
        if self.metadata:
            doc["metadata"] = self.metadata
        if self.begin:
            doc["begin"] = self.begin.json
        if self.end:
            doc["end"] = self.end.json
        if self.method == "fold":
            doc["zero"] = tojsonvalue(self.zero, self.output, env)
            doc["merge"] = self.merge.json
        if self.g.fns:
            doc["fcns"] = {f.name: f.json for f in self.g.fns}

        def item(n, t, init):
            out = {"type": tojson(t), "init": init}
            if self.shared[n]:
                out["shared"] = True
            if self.roll[n]:
                out["rollback"] = True
            return out
        if self.cells0:
            doc["cells"] = {n: item(n, self.g.cells[n][0], tojsonvalue(v, self.g.cells[n][0], env)) for n, v in self.cells0.items()}
        if self.declcells:
            doc.setdefault("cells", {}).update(self.declcells)
        if self.pools0:
            doc["pools"] = {n: item(n, self.g.pools[n][0], {k: tojsonvalue(v, self.g.pools[n][0], env) for k, v in m.items()})
                            for n, m in self.pools0.items()}
        return doc

    def gen_input(self):
        return self.g.value(self.intype) if self.simple_input else \
            {n: ([] if n.startswith("decl") else self.g.value(t)) for n, t, _ in self.fields}


class RefEngine(object):
    """what a host observes of one engine of a Program"""

    def __init__(self, prog, name, instance=0, cells=None, pools=None):
        self.p = prog
        self.rt = Runtime()
        self.rt.cells = dict(prog.cells0) if cells is None else cells
        self.rt.pools = {n: dict(v) for n, v in prog.pools0.items()} if pools is None else pools
        self.started = self.finished = 0
        self.tally = prog.zero if prog.method == "fold" else None
        self.common = {"name": name, "instance": instance, "metadata": dict(prog.metadata)}
        if prog.version is not None:
            self.common["version"] = prog.version

    def run(self, node, vars):
        self.rt.fuel = self.rt.fuel0
        s = RScope(None)
        s.vars.update(vars)
        return node.ev(self.rt, RScope(s))

    def begin(self):
        if self.p.begin:
            self.run(self.p.begin, self.common)

    def end(self):
        if self.p.end:
            v = dict(self.common, actionsStarted=self.started, actionsFinished=self.finished)
            if self.p.method == "fold":
                v["tally"] = self.tally
            self.run(self.p.end, v)

    def action(self, x):
        p = self.p
        cells, pools = dict(self.rt.cells), dict(self.rt.pools)
        self.started += 1
        v = dict(self.common, input=x, actionsStarted=self.started, actionsFinished=self.finished)
        if p.method == "fold":
            v["tally"] = self.tally
        try:
            out = self.run(p.action, v)
            if p.method != "emit":
                out = conv(out, p.action.st, p.output, p.env)
        except (Err, UserErr):
            for n in cells:
                if p.roll[n]:
                    self.rt.cells[n] = cells[n]
            for n in pools:
                if p.roll[n]:
                    self.rt.pools[n] = pools[n]
            raise
        self.finished += 1
        if p.method == "fold":
            self.tally = out
        return None if p.method == "emit" else out

    def domerge(self, a, b):
        p = self.p
        cells, pools = dict(self.rt.cells), dict(self.rt.pools)
        try:
            out = conv(self.run(p.merge, dict(self.common, tallyOne=a, tallyTwo=b)), p.merge.st, p.output, p.env)
        except (Err, UserErr):
            for n in cells:
                if p.roll[n]:
                    self.rt.cells[n] = cells[n]
            for n in pools:
                if p.roll[n]:
                    self.rt.pools[n] = pools[n]
            raise
        self.tally = out
        return out
