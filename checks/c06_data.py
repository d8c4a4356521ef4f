"""C06: input data against an independent admission model; JSON encoding and decoding."""
import copy
import json
import math

import numpy

import avt
from avt import U, tag
from pbt import Violation, Discard, show
from runner import Sub
from engines import build, outcome
from titus.datatype import jsonToAvroType, jsonEncoder, jsonDecoder, checkData
from titus.errors import AvroException, PFAInitializationException
from titus.genpy import PFAEngine

RULE = ("generated types (records, recursive records, enums, fixeds, unions, with and without a namespace) and values; data are given to an engine that returns its input, in canonical form and in every other accepted "
        "form (NumPy scalars and arrays, tuples, whole numbers for floating point, text for bytes, extra keys, bare and tagged union members, short and full tags), and with generated damage; "
        "admission and the resulting value come from an independent model; JSON encoding, decoding and default values are checked against their specification; "
        "non-trivial = the type has a container, union or named type; distinct = distinct (type, datum)")
ASSUMPTIONS = ["a bare union member belongs to the branch of its own kind (text: string or enum, whole numbers: int or long), otherwise to the first branch that admits it",
               "text that spells a number, a boolean or null is admitted as such where nothing textual is expected, as the code does on purpose for text formats"]
FACTOR = {"quick": 3, "thorough": 10}


class Refuse(Exception):
    pass


class Open(Exception):
    """either answer is acceptable"""


def short(t):
    return tag(t).split(".")[-1]


class Odd(object):
    pass


def isint(x):
    return isinstance(x, (int, numpy.integer)) and not isinstance(x, (bool, numpy.bool_))


def isfloat(x):
    return isinstance(x, (float, numpy.floating))


def isbool(x):
    return isinstance(x, (bool, numpy.bool_))


def number(text, f):
    try:
        return f(text)
    except ValueError:
        raise Refuse()


def admit(x, t, env):
    """canonical datum for x as a t, or Refuse"""
    k = t[0]
    if k == "null":
        if x is None or (isinstance(x, str) and x == "null"):
            return None
    elif k == "boolean":
        if isbool(x):
            return bool(x)
        if isinstance(x, str) and x in ("true", "false"):
            return x == "true"
    elif k in ("int", "long"):
        if isinstance(x, str):
            x = number(x, int)
        if isint(x):
            lo, hi = (avt.INT_MIN, avt.INT_MAX) if k == "int" else (avt.LONG_MIN, avt.LONG_MAX)
            if lo <= int(x) <= hi:
                return int(x)
    elif k in ("float", "double"):
        if isinstance(x, str):
            return number(x, float)
        if isint(x) or isfloat(x):
            try:
                return float(x)
            except OverflowError:
                raise Open()
    elif k in ("bytes", "fixed"):
        if isinstance(x, str):
            if any(ord(c) > 255 for c in x):
                raise Refuse()
            x = x.encode("latin-1")
        if isinstance(x, bytes) and (k == "bytes" or len(x) == env.fixeds[t[1]]):
            return x
    elif k == "string":
        if isinstance(x, str):
            return x
    elif k == "enum":
        if isinstance(x, str):
            if x not in env.enums[t[1]]:
                raise Symbol()
            return x
    elif k == "array":
        if isinstance(x, (list, tuple)) or (isinstance(x, numpy.ndarray) and x.ndim > 0):
            return [admit(y, t[1], env) for y in x]
    elif k == "map":
        if isinstance(x, dict):
            out = {}
            for a, y in x.items():
                y = admit(y, t[1], env)
                if isinstance(a, bytes):
                    a = a.decode("utf-8", "replace")
                if not isinstance(a, str):
                    raise Refuse()
                out[a] = y
            return out
    elif k == "record":
        if isinstance(x, dict):
            if any(f[0] not in x for f in env.records[t[1]]):
                raise Refuse()
            return {f[0]: admit(x[f[0]], f[1], env) for f in env.records[t[1]]}
    elif k == "union":
        def wrap(b, v):
            return None if b[0] == "null" else {short(b): v}
        if isinstance(x, dict) and len(x) == 1:
            (a, y), = x.items()
            for b in t[1]:
                if a == tag(b) or a == short(b):
                    return wrap(b, admit(y, b, env))
        own = ("string", "enum") if isinstance(x, str) else ("int", "long") if isint(x) else ()
        symbol = False
        for b in [b for b in t[1] if b[0] in own] + [b for b in t[1] if b[0] not in own]:
            try:
                return wrap(b, admit(x, b, env))
            except Refuse:
                pass
            except Symbol:
                if b[0] != "enum":
                    symbol = True       # a container with a bad symbol inside: known to be admitted
        if symbol:
            raise Open()
    raise Refuse()


class Symbol(Exception):
    """text that is not a symbol of the enum"""


def exact(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# ------------------------------------------------------------------ data in their various forms

def form(d, v, t, env, odd):
    """a Python datum for the model value v; odd: chance of an unusual form"""
    k = t[0]
    o = odd and d.chance(1, 3)
    if k == "boolean" and o:
        return d.choice([numpy.bool_(v), v])
    if k in ("int", "long"):
        if o:
            kinds = [numpy.int64, numpy.int_, numpy.intp]
            for ty, n in ((numpy.int8, 7), (numpy.int16, 15), (numpy.int32, 31), (numpy.intc, 31)):
                if -2 ** n <= v < 2 ** n:
                    kinds.append(ty)
            for ty, n in ((numpy.uint8, 8), (numpy.uint16, 16), (numpy.uint32, 32), (numpy.uint64, 64)):
                if 0 <= v < 2 ** n:
                    kinds.append(ty)
            return d.choice(kinds)(v) if d.chance(4, 5) else str(v)
        return v
    if k in ("float", "double"):
        if o:
            if v == v and abs(v) < 1e6 and v == int(v) and d.bool():
                return d.choice([int, numpy.int32, numpy.int64])(int(v))
            fits = [numpy.float64] + [ty for ty in (numpy.float32, numpy.float16) if v != v or float(ty(v)) == v]
            return d.choice(fits)(v) if d.chance(4, 5) else repr(v)
        return v
    if k in ("bytes", "fixed"):
        return v.decode("latin-1") if o else v
    if k == "string":
        return numpy.str_(v) if o and d.chance(1, 4) and "\0" not in v else v
    if k == "array":
        out = [form(d, x, t[1], env, odd) for x in v]
        if o:
            if t[1][0] in ("double", "int", "long", "boolean") and v and not any(isinstance(x, str) for x in out):
                return numpy.array(v, dtype={"double": float, "int": numpy.int32, "long": numpy.int64, "boolean": bool}[t[1][0]])
            return tuple(out)
        return out
    if k == "map":
        return {(a.encode("utf-8") if o and d.bool() else a): form(d, x, t[1], env, odd) for a, x in v.items()}
    if k == "record":
        out = [(f[0], form(d, v[f[0]], f[1], env, odd)) for f in env.records[t[1]]]
        if o:
            out = d.shuffle(out) + [(d.choice(["other", "F0", "next2"]), d.choice([None, 3, "x", Odd()]))]
        return dict(out)
    if k == "union":
        if v is None:
            return {"null": None} if o and d.chance(1, 3) else None
        for b in t[1]:
            if tag(b) == v.tag:
                y = form(d, v.v, b, env, odd)
                c = d.below(3) if odd else 0
                return {short(b): y} if c == 0 else {tag(b): y} if c == 1 else y
    return v


JUNK = [None, True, False, 0, 5, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 2.5, 3.0, float("nan"), float("inf"), "", "abc", "A", "zed", "nosymbol", "3", "2.5", "null", "true", "False", b"", b"xy",
        u"\u20ac", [], ["a"], [1], [[]], {}, {"a": 1}, {"int": 5}, {"string": "x"}, {"null": None}, {"double": 1}, {"array": []}, {"map": {}}, {"f0": 1}, {1: 2}, (), ("a",),
        numpy.int64(7), numpy.float32(1.5), numpy.bool_(True), numpy.array([1, 2]), numpy.array([]), numpy.array([1.5])]


def damage(d, x):
    """replaces a random part of the datum"""
    if isinstance(x, dict) and x and d.chance(3, 4):
        x = dict(x)
        k = d.choice(sorted(x, key=repr))
        how = d.below(6)
        if how == 0:
            del x[k]
        elif how == 1 and isinstance(k, str):
            x[k + "x"] = x.pop(k)
        else:
            x[k] = damage(d, x[k])
        return x
    if isinstance(x, (list, tuple)) and len(x) and d.chance(3, 4):
        x = list(x)
        i = d.below(len(x))
        x[i] = damage(d, x[i])
        return x
    if isinstance(x, (bytes, str)) and d.chance(1, 3):
        return x[:-1] if d.bool() else x + x[:1]
    if d.chance(1, 10):
        return Odd()
    return copy.deepcopy(d.choice(JUNK))


def types(d):
    env = avt.gen_env(d, prefix="com.ns." if d.chance(1, 4) else "")
    env.multinum = d.bool()
    t = avt.gen_type(d, env, depth=3) if d.chance(1, 3) else d.choice([avt.ARRAY, avt.MAP, lambda x: x])(avt.gen_union(d, env, 2, hi=4) if d.bool() else d.choice(env.types() or [avt.gen_type(d, env, depth=2)]))
    return env, t


OPTS = avt.ValOpts(nan=True, bigfloat=True)
RICH = ("array", "map", "union", "record", "enum", "fixed")


def admission(d):
    env, t = types(d)
    declared = set()
    it = avt.tojson(t, env, declared)
    doc = {"input": it, "output": avt.tojson(t, env, declared), "cells": {"n": {"type": "int", "init": 0}},
           "action": [{"cell": "n", "to": {"params": [{"x": "int"}], "ret": "int", "do": [{"+": ["x", 1]}]}}, "input"]}
    d.note(it)
    try:
        e = build(doc)
    except Exception:
        raise Discard()
    runs = 0
    for _ in range(4):
        v = avt.gen_value(d, t, env, OPTS)
        x = form(d, v, t, env, d.chance(2, 3))
        for _ in range(d.choice([0, 0, 1, 1, 2])):
            x = damage(d, x)
        d.note(repr(x))
        try:
            want = ("ok", admit(x, t, env))
        except Refuse:
            want = ("refused",)
        except Symbol:
            want = ("symbol",)
        except Open:
            want = ("open",)
        before = (repr(x), e.actionsStarted)
        d.sut()
        try:
            got = ("ok", e.action(x))
            runs += 1
        except TypeError as err:
            got = ("refused",)
        except AvroException:
            got = ("avro",)
        started = e.actionsStarted
        if repr(x) != before[0]:
            raise Violation("action changed its input %s to %r" % (before[0], x))
        d.label(want[0] if want[0] != "ok" else "ok" if want[0] == got[0] else "mismatch")
        if t[0] in RICH:
            d.nontrivial(repr((it, before[0])))
        if want[0] == "open":
            continue
        if want[0] == "symbol":
            if got[0] != "refused":
                raise Violation("%s admits %s" % (json.dumps(it), before[0]), "enum-symbol")
            continue
        if got[0] != want[0]:
            raise Violation("%s as %s: %s, expected %s" % (before[0], json.dumps(it), show(got), show(want)))
        if got[0] == "ok" and not exact(got[1], want[1]):
            raise Violation("%s as %s enters as %r, expected %r" % (before[0], json.dumps(it), got[1], want[1]))
        if got[0] == "refused" and started != before[1]:
            raise Violation("%s as %s is refused, but the action was started" % (before[0], json.dumps(it)))


# ------------------------------------------------------------------ JSON

def canon(v, t, env, text):
    """tagged datum; bytes as text or as they are"""
    k = t[0]
    if k in ("bytes", "fixed"):
        return v.decode("latin-1") if text else v
    if k == "array":
        return [canon(x, t[1], env, text) for x in v]
    if k == "map":
        return {a: canon(x, t[1], env, text) for a, x in v.items()}
    if k == "record":
        return {f[0]: canon(v[f[0]], f[1], env, text) for f in env.records[t[1]]}
    if k == "union":
        if v is None:
            return None
        b, = [b for b in t[1] if tag(b) == v.tag]
        return {short(b): canon(v.v, b, env, text)}
    return v


def bare(v, t, env):
    k = t[0]
    if k in ("bytes", "fixed"):
        return v.decode("latin-1")
    if k == "array":
        return [bare(x, t[1], env) for x in v]
    if k == "map":
        return {a: bare(x, t[1], env) for a, x in v.items()}
    if k == "record":
        return {f[0]: bare(v[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union":
        if v is None:
            return None
        return bare(v.v, [b for b in t[1] if tag(b) == v.tag][0], env)
    return v


def retag(d, x, t, env):
    """full names for some of the tags of tagged JSON"""
    k = t[0]
    if k == "array":
        return [retag(d, y, t[1], env) for y in x]
    if k == "map":
        return {a: retag(d, y, t[1], env) for a, y in x.items()}
    if k == "record":
        return {f[0]: retag(d, x[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union" and x is not None:
        (a, y), = x.items()
        b, = [b for b in t[1] if short(b) == a]
        return {tag(b) if d.bool() else a: retag(d, y, b, env)}
    return x


def codec(d):
    env, t = types(d)
    it = avt.tojson(t, env, set())
    d.note(it)
    at = jsonToAvroType(json.dumps(it))
    for _ in range(3):
        v = avt.gen_value(d, t, env, OPTS)
        x = canon(v, t, env, d.bool())
        text = canon(v, t, env, True)
        d.note(repr(x))
        keep = copy.deepcopy(x)
        d.sut()
        enc = jsonEncoder(at, x)
        if not exact(enc, text):
            raise Violation("JSON of %r as %s is %r" % (keep, json.dumps(it), enc))
        back = jsonDecoder(at, json.loads(json.dumps(enc)))
        if not exact(back, text):
            raise Violation("%r as %s is decoded from JSON as %r" % (keep, json.dumps(it), back))
        full = retag(d, text, t, env)
        back = jsonDecoder(at, json.loads(json.dumps(full)))
        if not exact(back, text):
            raise Violation("%r as %s is decoded from JSON as %r" % (full, json.dumps(it), back))
        un = jsonEncoder(at, x, tagged=False)
        if not exact(un, bare(v, t, env)):
            raise Violation("untagged JSON of %r as %s is %r" % (keep, json.dumps(it), un))
        again = checkData(back, at)
        want = canon(v, t, env, False)
        if not exact(again, want):
            raise Violation("decoded %r as %s enters as %r" % (back, json.dumps(it), again))
        if not exact(x, keep):
            raise Violation("encoding changed %r to %r" % (keep, x))
        if t[0] in RICH:
            d.nontrivial(repr((it, keep)))


class Loose(Exception):
    """decoded leniently (numbers from text, fractions for integers)"""


def decodes(x, t, env):
    k = t[0]
    if k == "null":
        ok = x is None
    elif k == "boolean":
        ok = isinstance(x, bool)
    elif k in ("int", "long"):
        if isinstance(x, (str, float)):
            raise Loose()
        ok = isinstance(x, int) and not isinstance(x, bool) and (avt.INT_MIN <= x <= avt.INT_MAX if k == "int" else avt.LONG_MIN <= x <= avt.LONG_MAX)
    elif k in ("float", "double"):
        if isinstance(x, str):
            raise Loose()
        ok = isinstance(x, (int, float)) and not isinstance(x, bool)
    elif k == "string":
        ok = isinstance(x, str)
    elif k == "bytes":
        if isinstance(x, str) and any(ord(c) > 255 for c in x):
            raise Loose()
        ok = isinstance(x, str)
    elif k == "fixed":
        if isinstance(x, str) and any(ord(c) > 255 for c in x):
            raise Loose()
        ok = isinstance(x, str) and len(x) == env.fixeds[t[1]]
    elif k == "enum":
        ok = isinstance(x, str) and x in env.enums[t[1]]
    elif k == "array":
        ok = isinstance(x, list) and all([decodes(y, t[1], env) for y in x])
    elif k == "map":
        ok = isinstance(x, dict) and all([decodes(y, t[1], env) for y in x.values()])
    elif k == "record":
        ok = isinstance(x, dict) and all([f[0] in x and decodes(x[f[0]], f[1], env) or (f[0] not in x and f[1][0] == "null") for f in env.records[t[1]]])
    else:
        if x is None:
            return any(b[0] == "null" for b in t[1])
        ok = False
        if isinstance(x, dict) and len(x) == 1:
            (a, y), = x.items()
            for b in t[1]:
                if a in (tag(b), short(b)):
                    ok = decodes(y, b, env)
    return bool(ok)


JSONJUNK = [x for x in JUNK if isinstance(x, (type(None), bool, int, float, str, list)) and not isinstance(x, numpy.generic)] + [{}, {"a": 1}, {"int": 5}, {"string": "x"}, {"null": None}, {"double": 1}, {"array": []}, {"f0": 1}]


def jdamage(d, x):
    if isinstance(x, dict) and x and d.chance(3, 4):
        x = dict(x)
        k = d.choice(sorted(x))
        how = d.below(6)
        if how == 0:
            del x[k]
        elif how == 1:
            x[k + "x"] = x.pop(k)
        else:
            x[k] = jdamage(d, x[k])
        return x
    if isinstance(x, list) and x and d.chance(3, 4):
        i = d.below(len(x))
        return x[:i] + [jdamage(d, x[i])] + x[i + 1:]
    if isinstance(x, str) and d.chance(1, 3):
        return x[:-1] if d.bool() else x + "z"
    return copy.deepcopy(d.choice(JSONJUNK))


def wrongjson(d):
    """damaged JSON is refused by the decoder and as the initial value of a cell"""
    env, t = types(d)
    it = avt.tojson(t, env, set())
    d.note(it)
    at = jsonToAvroType(json.dumps(it))
    for _ in range(4):
        x = jdamage(d, canon(avt.gen_value(d, t, env, OPTS), t, env, True))
        d.note(repr(x))
        try:
            want = decodes(x, t, env)
        except Loose:
            d.label("loose")
            continue
        d.sut()
        try:
            y = jsonDecoder(at, copy.deepcopy(x))
            got = True
        except AvroException:
            got = False
        d.label("decoded" if want else "refused")
        d.nontrivial(repr((it, x)))
        if got != want:
            raise Violation("%r as %s: %s" % (x, json.dumps(it), "decoded" if got else "refused"))
        if d.chance(1, 3):
            doc = {"input": "null", "output": it, "cells": {"c": {"type": it if t[0] not in ("record", "enum", "fixed") else t[1], "init": x}}, "action": [{"cell": "c"}]}
            if "T" in json.dumps(it):
                doc = {"input": "null", "output": "null", "cells": {"c": {"type": it, "init": x}}, "action": [{"do": [{"cell": "c"}, None]}]}
            try:
                e = PFAEngine.fromJson(doc)[0]
                ok = True
            except (PFAInitializationException, AvroException):
                ok = False
            if ok != want:
                raise Violation("a cell of type %s with initial value %r is %s" % (json.dumps(it), x, "accepted" if ok else "refused"))


def defaults(d):
    """missing fields of JSON records are filled in from the defaults of the schema"""
    env = avt.Env()
    fields, want = [], {}
    for i in range(d.int(1, 4)):
        t = avt.gen_type(d, env, depth=2)
        b = t[1][0] if t[0] == "union" else t
        v = avt.gen_value(d, b, env, avt.DEFAULT)
        f = {"name": "f%d" % i, "type": avt.tojson(t, env)}
        c = canon(v, b, env, True)
        has = d.chance(3, 4)
        if has:
            f["default"] = c if b[0] != "union" else bare(v, b, env)
        fields.append((f, t, None if not has else c if t[0] != "union" or b[0] == "null" else {short(b): c}, has))
    for f, t, _, has in fields:
        if has and avt.contains(t[1][0] if t[0] == "union" else t, lambda x: x[0] == "union", env):
            raise Discard()
    it = {"type": "record", "name": "R", "fields": [f for f, _, _, _ in fields]}
    d.note(it)
    at = jsonToAvroType(json.dumps(it))
    x, want, ok = {}, {}, True
    for f, t, c, has in fields:
        n = f["name"]
        if d.bool():
            want[n] = x[n] = canon(avt.gen_value(d, t, env, avt.DEFAULT), t, env, True)
        elif has:
            want[n] = c
        elif t[0] == "null":
            want[n] = None
        else:
            ok = False
    d.note(x)
    d.sut()
    d.nontrivial(repr((it, x)))
    try:
        got = jsonDecoder(at, x)
    except AvroException:
        got = None
    d.label("filled" if ok else "missing")
    if ok != (got is not None) or (ok and not exact(got, want)):
        raise Violation("%r as %s is decoded as %r, expected %r" % (x, json.dumps(it), got, want if ok else "a refusal"))


def probe_symbol():
    e = build({"input": {"type": "enum", "name": "E", "symbols": ["A"]}, "output": "E", "action": ["input"]})
    try:
        e.action("B")
    except TypeError:
        return False
    return True


PROBES = {"enum-symbol": probe_symbol}
SUBS = [Sub("admission", admission, 900, 20000), Sub("codec", codec, 400, 8000), Sub("wrongjson", wrongjson, 400, 8000), Sub("defaults", defaults, 250, 4000)]
