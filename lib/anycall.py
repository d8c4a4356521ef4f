"""Generates a well-typed call of any library function from its declared signature."""
import json

import avt
from avt import ARRAY, MAP, UNION, INT, LONG, FLOAT, DOUBLE, STRING, BYTES, BOOLEAN, NULL, tojson, toinput
import engines
from engines import LibCall
from pbt import Discard

from titus.errors import PFASemanticException

import titus.P as P
from titus.pfaast import FunctionTable
from titus.signature import Sigs, PFAVersion

TABLE = {n: f for n, f in FunctionTable.blank().functions.items() if hasattr(f, "sig")}
NAMES = sorted(TABLE)
VERSION = PFAVersion(0, 8, 1)

PRIM = [(P.Null, NULL), (P.Boolean, BOOLEAN), (P.Int, INT), (P.Long, LONG), (P.Float, FLOAT), (P.Double, DOUBLE), (P.Bytes, BYTES), (P.String, STRING)]


def signatures(fcn):
    s = TABLE[fcn].sig
    return [x for x in (s.cases if isinstance(s, Sigs) else [s]) if x.lifespan.current(VERSION) or x.lifespan.deprecated(VERSION)]


class AnyCall(object):
    def __init__(self, d, fcn=None, sig=None):
        self.d = d
        self.env = avt.Env()
        self.fcn = fcn or d.choice(NAMES)
        sig = self.sig = sig or d.choice(signatures(self.fcn))
        self.labels = {}
        self.values = avt.ValOpts(nan=d.chance(1, 4), maxlen=d.choice([2, 4]), smallints=True)
        # records first, so that EnumFields find theirs
        pats = [list(p.values())[0] for p in sig.params]
        for p in pats:
            self.scan(p)
        self.types = [self.inst(p) for p in pats]
        self.ret = self.inst(sig.ret)

    def scan(self, p):
        if isinstance(p, P.WildRecord):
            self.inst(p)
        elif isinstance(p, P.Array):
            self.scan(p.items)
        elif isinstance(p, P.Map):
            self.scan(p.values)
        elif isinstance(p, P.Union):
            for x in p.types:
                self.scan(x)
        elif isinstance(p, P.Fcn):
            for x in p.params:
                self.scan(x)
            self.scan(p.ret)

    def small(self, depth=1):
        d = self.d
        k = d.below(10)
        if k == 0 and depth:
            return ARRAY(self.small(0))
        if k == 1 and depth:
            return MAP(self.small(0))
        if k == 2:
            return UNION(*d.sample([NULL, INT, STRING, DOUBLE], 2))
        return d.choice([INT, INT, LONG, DOUBLE, DOUBLE, STRING, STRING, BOOLEAN, BYTES])

    def inst(self, p):
        d = self.d
        for c, t in PRIM:
            if isinstance(p, c):
                return t
        if isinstance(p, P.Array):
            return ARRAY(self.inst(p.items))
        if isinstance(p, P.Map):
            return MAP(self.inst(p.values))
        if isinstance(p, P.Union):
            ts = []
            for x in p.types:
                x = self.inst(x)
                for y in (x[1] if x[0] == "union" else [x]):
                    if all(avt.tag(y) != avt.tag(z) for z in ts):
                        ts.append(y)
            return UNION(*ts) if len(ts) > 1 else ts[0]
        if isinstance(p, P.Fcn):
            return ("fcn", [self.inst(x) for x in p.params], self.inst(p.ret))
        if getattr(p, "label", None) in self.labels and self.labels[p.label] is not None:
            return self.labels[p.label]
        n = "L" + p.label if hasattr(p, "label") else "?"
        if isinstance(p, P.Wildcard):
            if p.oneOf is not None:
                out = d.choice([avt.fromjson(json.loads(repr(x)), self.env) for x in p.oneOf])
            else:
                out = self.small()
        elif isinstance(p, P.WildRecord):
            out = self.labels[p.label] = ("record", n)
            self.env.records[n] = []
            fs = [(f, self.inst(x), {}) for f, x in sorted((p.minimalFields or {}).items())]
            for i in range(d.below(3) if fs else d.int(1, 3)):
                fs.append(("extra%d" % i, self.small(), {}))
            self.env.records[n] = d.shuffle(fs)
        elif isinstance(p, P.WildEnum):
            self.env.add_enum(n, ["s1", "s2", "s3"][:d.int(1, 3)])
            out = ("enum", n)
        elif isinstance(p, P.WildFixed):
            self.env.add_fixed(n, d.int(1, 4))
            out = ("fixed", n)
        elif isinstance(p, P.EnumFields):
            rec = self.labels.get(p.wildRecord)
            if rec is None:
                raise Discard()
            self.env.add_enum(n, [f[0] for f in self.env.records[rec[1]]])
            out = ("enum", n)
        else:
            raise Discard()
        self.labels[getattr(p, "label", None)] = out
        return out

    def value(self, t, depth=3):
        try:
            return avt.gen_value(self.d, t, self.env, self.values, depth)
        except RecursionError:      # a record that always contains itself has no values
            raise Discard()

    def function(self, t, top):
        """an inline function of the type; named types are declared elsewhere"""
        d = self.d
        _, ps, ret = t
        if any(p[0] == "fcn" for p in ps) or ret[0] == "fcn":
            raise Discard()
        names = ["q%d_%d" % (top, i) for i in range(len(ps))]
        same = [n for n, p in zip(names, ps) if avt.accepts(ret, p, self.env)]
        if same and d.chance(3, 4):
            body = d.choice(same)
        elif ret == INT and len(ps) == 2 and ps[0] == ps[1]:
            body = {"cmp": names}
        elif ret == BOOLEAN and len(ps) == 2 and ps[0] == ps[1]:
            body = {"<": names}
        elif ret == DOUBLE and ps and all(p in (INT, LONG, FLOAT, DOUBLE) for p in ps):
            body = {"m.abs": [{"-": [names[0], names[-1]]}]}
            if not avt.accepts(DOUBLE, ps[0], self.env):
                raise Discard()
        elif ret == NULL:
            body = None
        else:
            body = {"type": tojson(ret), "value": avt.tojsonvalue(self.value(ret), ret, self.env)}
        return {"params": [{n: tojson(p)} for n, p in zip(names, ps)], "ret": tojson(ret), "do": [body]}

    def build(self):
        """-> (LibCall, args)"""
        params, args = [], []
        used = set()
        for i, t in enumerate(self.types):
            if t[0] == "fcn":
                params.append(("expr", self.function(t, i)))
                args.append(None)
            else:
                params.append(tojson(t, self.env, used))
                args.append(toinput(self.value(t), t, self.env))
        # types used only by functions or by the result
        declared = set(used)
        ret = tojson(self.ret, self.env, declared)
        extra = []
        for i, t in enumerate(self.types):
            if t[0] == "fcn":
                for x in list(t[1]) + [t[2]]:
                    extra.append(tojson(x, self.env, declared))
        self.params = params
        fcns = None
        if any(isinstance(x, (dict, list)) for x in extra):
            # the declarations must be in the document: in the parameters of a function never called
            fcns = {"declare": {"params": [{"y%d" % i: x} for i, x in enumerate(extra)], "ret": "null", "do": [None]}}
        self.args = args
        try:
            return LibCall(self.fcn, params, ret, fcns=fcns), args
        except PFASemanticException:        # union patterns match their members exactly; C05 decides acceptance
            raise Discard()
