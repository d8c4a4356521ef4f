"""Helpers that drive titus through its public API and classify outcomes."""
import copy
import json
import sys

import avt
import pbt
from pbt import Violation, Discard, same, close, show

from titus.genpy import PFAEngine
from titus.errors import (SchemaParseException, AvroException, PFAException, PFASyntaxException, PFASemanticException, PFAInitializationException,
                          PFARuntimeException, PFAUserException, PFATimeoutException)


class Err(Exception):
    """raised by reference implementations: the PFA runtime error `code` is the specified outcome"""
    def __init__(self, code):
        Exception.__init__(self, code)
        self.code = code


class UserErr(Exception):
    def __init__(self, message, code):
        Exception.__init__(self, message, code)
        self.message = message
        self.code = code


def build(doc, **kw):
    """one engine"""
    kw.setdefault("debug", False)
    return PFAEngine.fromJson(doc, **kw)[0]


def compile_outcome(doc, **kw):
    try:
        return "ok", PFAEngine.fromJson(doc, **kw)[0]
    except PFASyntaxException as e:
        return "syntax", str(e)
    except PFASemanticException as e:
        return "semantic", str(e)
    except PFAInitializationException as e:
        return "init", str(e)
    except (SchemaParseException, AvroException) as e:
        return "schema", str(e)


def outcome(fn, *args):
    """('ok', value) | ('err', code) | ('user', message, code) | ('timeout',); anything else propagates"""
    try:
        return ("ok", fn(*args))
    except PFARuntimeException as e:
        return ("err", e.code)
    except PFAUserException as e:
        return ("user", e.message, e.code)
    except PFATimeoutException as e:
        return ("timeout",)


def refoutcome(fn, *args):
    try:
        return ("ok", fn(*args))
    except Err as e:
        return ("err", e.code)
    except UserErr as e:
        return ("user", e.message, e.code)


def untag(v, t, named=None):
    """value from an engine (tagged unions) -> same, deep copied"""
    return copy.deepcopy(v)


# ------------------------------------------------------------------ library calls

_engines = {}


def decl_types(types):
    """Avro type JSON lists may define named types; a later use refers to the name"""
    seen = set()

    def walk(t):
        if isinstance(t, list):
            return [walk(x) for x in t]
        if isinstance(t, dict):
            if t["type"] in ("record", "enum", "fixed"):
                if t["name"] in seen:
                    return t["name"]
                seen.add(t["name"])
            out = dict(t)
            if t["type"] == "record":
                out["fields"] = [dict(f, type=walk(f["type"])) for f in t["fields"]]
            elif t["type"] == "array":
                out["items"] = walk(t["items"])
            elif t["type"] == "map":
                out["values"] = walk(t["values"])
            return out
        return t
    return [walk(t) for t in types]


class LibCall(object):
    """An engine that applies one library function to its inputs and also reports the inputs afterwards.

    params: list of Avro types (JSON), ("expr", json) for a fixed argument expression (functions, literals), or
    ("via", type, json) for an argument computed from the input by an expression containing "$".
    """

    def __init__(self, fcn, params, ret, fcns=None, options=None, version=None, echo=True, extra=None):
        self.fcn, self.params, self.ret = fcn, params, ret
        ins = []
        args = []
        self.slots = []
        for i, p in enumerate(params):
            if isinstance(p, tuple) and p[0] == "expr":
                args.append(p[1])
            elif isinstance(p, tuple) and p[0] == "via":
                self.slots.append(i)
                ins.append(("x%d" % i, p[1]))
                args.append(json.loads(json.dumps(p[2]).replace('"$"', '"input.x%d"' % i)))
            else:
                self.slots.append(i)
                ins.append(("x%d" % i, p))
                args.append("input.x%d" % i)
        types = decl_types([p for _, p in ins] + [ret])
        intypes = types[:-1]
        fields = [{"name": n, "type": t} for (n, _), t in zip(ins, intypes)] + [{"name": "pad", "type": "null"}]
        intype = {"type": "record", "name": "LibIn", "fields": fields}
        rett = types[-1]
        if echo:
            outtype = {"type": "record", "name": "LibOut", "fields": [{"name": "r", "type": rett}, {"name": "in", "type": "LibIn"}]}
            action = [{"let": {"libresult": {fcn: args}}},
                      {"type": "LibOut", "new": {"r": "libresult", "in": "input"}}]
        else:
            outtype = rett
            action = [{fcn: args}]
        doc = {"input": intype, "output": outtype, "action": action}
        if fcns:
            doc["fcns"] = fcns
        if options:
            doc["options"] = options
        if version:
            doc["version"] = version
        if extra:
            doc.update(extra)
        self.doc = doc
        self.echo = echo
        self.env = avt.Env()
        for t in intypes:
            avt.fromjson(t, self.env)
        self.rettype = avt.fromjson(rett, self.env)
        self.engine = build(doc)

    def __call__(self, *args):
        """-> outcome; raises Violation when an argument was modified"""
        datum = {"x%d" % i: copy.deepcopy(args[i]) for i in self.slots}
        for i in self.slots:
            if self.params[i] in ("int", "long") and not (avt.INT_MIN if self.params[i] == "int" else avt.LONG_MIN) <= args[i] <= (avt.INT_MAX if self.params[i] == "int" else avt.LONG_MAX):
                raise Discard()         # not a value of the type
        datum["pad"] = None
        keep = copy.deepcopy(datum)
        out = outcome(self.engine.action, datum)
        if not same(keep, datum):
            raise Violation("%s modified the caller's data: before %s after %s" % (self.fcn, show(keep), show(datum)))
        if out[0] == "ok" and self.echo:
            after = out[1]["in"]
            if not close(norm(after), norm(keep), 0, 0):
                raise Violation("%s modified its arguments: before %s after %s" % (self.fcn, show(keep), show(after)))
            out = ("ok", out[1]["r"])
        if out[0] == "ok" and not avt.conforms(out[1], self.rettype, self.env):
            raise Violation("%s returned %s, which is not a value of its return type %s (arguments %s)"
                            % (self.fcn, show(out[1]), self.ret, show(keep)))
        return out


def norm(v):
    """bytes are held as latin-1 strings in some places; tagged unions left alone; -> comparable value"""
    if isinstance(v, bytes):
        return v.decode("latin-1")
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def libcall(fcn, params, ret, **kw):
    key = (fcn, json.dumps(params, sort_keys=True), json.dumps(ret, sort_keys=True), json.dumps(kw, sort_keys=True))
    if key not in _engines:
        if len(_engines) > 400:
            _engines.clear()
        _engines[key] = LibCall(fcn, params, ret, **kw)
    return _engines[key]


def has_nan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, dict):
        return any(has_nan(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(has_nan(x) for x in v)
    return False


def check_call(d, fcn, params, ret, args, ref, eq=None, rel=1e-9, abs_=1e-12, key=None, nontrivial=True, refargs=None, **kw):
    """Compare one library call with its reference. Returns the outcome."""
    d.note({"fcn": fcn, "params": params, "args": args})
    d.sut()
    got = libcall(fcn, params, ret, **kw)(*args)
    want = refoutcome(ref, *[copy.deepcopy(a) for a in (refargs if refargs is not None else args)
                             if not (isinstance(a, tuple) and a and a[0] == "expr")])
    compare_outcomes(fcn, args, got, want, eq, rel, abs_, key)
    if nontrivial:
        d.nontrivial(repr((fcn, params, args)))
    d.label("%s" % (got[0] if got[0] != "err" else "err %s" % got[1]))
    return got


def compare_outcomes(what, args, got, want, eq=None, rel=1e-9, abs_=1e-12, key=None):
    if got[0] != want[0]:
        raise Violation("%s%s: got %s, expected %s" % (what, show(args), show(got), show(want)), key)
    if got[0] == "ok":
        if eq is not None:
            ok = eq(got[1], want[1])
        elif rel == 0:
            ok = close(norm(got[1]), norm(want[1]), 0, 0)
        else:
            ok = close(norm(got[1]), norm(want[1]), rel, abs_)
        if not ok:
            raise Violation("%s%s: got %s, expected %s" % (what, show(args), show(got[1]), show(want[1])), key)
    elif got != want:
        raise Violation("%s%s: got %s, expected %s" % (what, show(args), show(got), show(want)), key)
