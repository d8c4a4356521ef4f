"""C18: pack and unpack against an independent implementation of the binary formats."""
import json
import math
import struct

import pbt
from pbt import Violation, close, show
from runner import Sub
from engines import build, outcome, compile_outcome

RULE = ("generated lists of formats in every spelling (signs, widths, byte orders, spacing, raw, null-terminated and length-prefixed) with values taken from the input, from cells and from literals: the packed bytes "
        "are compared with an independent encoder, unpacked again in the same engine and in a separate one, and damaged or random bytes are unpacked with an independent decoder as reference; "
        "unknown formats and mistyped values must be refused at compile time; non-trivial = at least two fields; distinct = distinct (formats, values or bytes)")
ASSUMPTIONS = ["a boolean byte is true if it is not zero", "without a byte order numbers are big-endian (network order)", "unsigned longs are doubles, so that values above 2**53 are rounded"]
FACTOR = {"quick": 3, "thorough": 10}


def enc_int(v, n, little):
    v &= (1 << (8 * n)) - 1
    b = [(v >> (8 * i)) & 255 for i in range(n)]
    return bytes(b if little else b[::-1])


def dec_int(b, signed, little):
    v = 0
    for x in (b[::-1] if little else b):
        v = v * 256 + x
    if signed and v >= 1 << (8 * len(b) - 1):
        v -= 1 << (8 * len(b))
    return v


def intof(n, signed):
    def gen(d):
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        c = d.below(4)
        if c == 0:
            return d.choice([lo, lo + 1, hi - 1, hi, 0, 1])
        if c == 1:
            return max(lo, min(hi, d.smallint(300)))
        return d.int(lo, hi)
    return gen


def ulong(d):
    return float(d.choice([0, 1, 255, 2 ** 31, 2 ** 32 + 1, 2 ** 53, 2 ** 63, 2 ** 64 - 2048, d.int(0, 2 ** 53)]))


def f32(d):
    return d.choice([0.0, -0.0, 1.5, -3.25, float("inf"), float("-inf"), float("nan"), 2.0 ** -149, 3.4028234663852886e38, d.smallint(10000) / 16.0])


def raw(lo, hi):
    return lambda d: bytes(d.choice([0, 1, 65, 127, 128, 255]) for _ in range(d.int(lo, hi)))


class Fmt(object):
    """spelling, Avro type for pack, for unpack, generator, encoder, decoder (bytes -> (value, rest) or None)"""
    def __init__(self, d, unpackable):
        sp = lambda: d.choice(["", "", " ", "  "])
        order = d.choice(["", "", "<", ">", "!", "little", "big", "network"])
        self.little = order in ("<", "little")
        o = order + (d.choice([" ", "  "]) if order.isalpha() else sp())
        un = "unsigned" + d.choice([" ", "  ", ""])
        k = d.choice(["pad", "boolean", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "rawN", "null", "prefixed", "int", "long", "double"] + ([] if unpackable else ["raw"]))
        self.kind = k
        sizes = {"byte": 1, "ubyte": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8}
        if k in sizes:
            n, signed = sizes[k], not k.startswith("u")
            names = {"byte": ["byte", "int8"], "ubyte": ["byte", "int8"], "short": ["short", "int16"], "ushort": ["short", "int16"], "int": ["int", "int32"], "uint": ["int", "int32"], "long": ["long", "int64", "long long"]}[k]
            self.text = ("" if n == 1 else o) + ("" if signed else un) + d.choice(names)
            self.type = "long" if k in ("uint", "long") else "int"
            self.gen = intof(n, signed)
            self.encode = lambda v: enc_int(v, n, self.little)
            self.decode = lambda b: None if len(b) < n else (dec_int(b[:n], signed, self.little), b[n:])
        elif k == "ulong":
            self.text = o + un + d.choice(["long", "int64", "long long"])
            self.type, self.gen = "double", ulong
            self.encode = lambda v: enc_int(int(v), 8, self.little)
            self.decode = lambda b: None if len(b) < 8 else (float(dec_int(b[:8], False, self.little)), b[8:])
        elif k in ("float", "double"):
            n, c = (4, "f") if k == "float" else (8, "d")
            self.text = o + d.choice([k, k + str(n * 8) if k == "float" else "float64"])
            self.type = k
            self.gen = f32 if k == "float" else lambda d: d.pfadouble()
            c = ("<" if self.little else ">") + c
            self.encode = lambda v: struct.pack(c, v)
            self.decode = lambda b: None if len(b) < n else (struct.unpack(c, b[:n])[0], b[n:])
        elif k == "pad":
            self.text, self.type, self.gen = "pad", "null", lambda d: None
            self.encode = lambda v: b"\0"
            self.decode = lambda b: None if len(b) < 1 else (None, b[1:])
        elif k == "boolean":
            self.text, self.type, self.gen = "boolean", "boolean", lambda d: d.bool()
            self.encode = lambda v: b"\1" if v else b"\0"
            self.decode = lambda b: None if len(b) < 1 else (b[0] != 0, b[1:])
        else:
            self.type = "bytes"
            if k == "raw":
                self.text, self.gen = "raw", raw(0, 5)
                self.encode = lambda v: v
            elif k == "rawN":
                n = d.choice([0, 1, 2, 3, 12])
                self.text, self.gen = "raw" + d.choice(["", " ", "  "]) + str(n), raw(n, n)
                self.encode = lambda v: v
                self.decode = lambda b: None if len(b) < n else (b[:n], b[n:])
                self.n = n
            elif k == "null":
                self.text = d.choice(["null terminated", "nullterminated", "terminated", "null  terminated"])
                self.gen = lambda d: raw(0, 5)(d).replace(b"\0", b"z")
                self.encode = lambda v: v + b"\0"
                self.decode = lambda b: None if b"\0" not in b else (b[:b.index(b"\0")], b[b.index(b"\0") + 1:])
            else:
                self.text = d.choice(["length prefixed", "lengthprefixed", "prefixed", "length  prefixed"])
                self.gen = lambda d: raw(0, 5)(d) if d.chance(4, 5) else b"x" * d.choice([200, 254, 255])
                self.encode = lambda v: bytes([len(v)]) + v
                self.decode = lambda b: None if not b or len(b) < 1 + b[0] else (b[1:1 + b[0]], b[1 + b[0]:])
        self.text = sp() + self.text + sp()


def decode(fmts, data):
    out = []
    for f in fmts:
        r = f.decode(data)
        if r is None:
            return None
        out.append(r[0])
        data = r[1]
    return out if not data else None


def eq(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(b, float):
        return isinstance(a, float) and (a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b))
    if isinstance(b, bytes):
        return (a.encode("latin-1") if isinstance(a, str) else a) == b
    return type(a) is type(b) and a == b


def narrow(d, f):
    """a type that will do for the format"""
    if f.type == "long":
        return d.choice(["long", "long", "int"])
    if f.type in ("float", "double"):
        return d.choice([f.type] * 3 + ["int"] + (["float"] if f.type == "double" else []))
    return f.type


def pack(d):
    fmts = [Fmt(d, False) for _ in range(d.weighted([(1, 1), (6, d.int(2, 6))]))]
    types = [narrow(d, f) for f in fmts]
    fields, exprs, cells = [], [], {}
    fixed = {}
    for i, (f, t) in enumerate(zip(fmts, types)):
        how = d.below(6)
        if how == 0 and t == "bytes" or how == 1 and t != "null":
            v = value(d, f, t)
            if isinstance(v, float) and (v != v or abs(v) == float("inf")):
                v = 0.5 if f.kind != "ulong" else 3.0
            cells["c%d" % i] = {"type": t, "init": v.decode("latin-1") if isinstance(v, bytes) else v}
            exprs.append({f.text: {"cell": "c%d" % i}})
            fixed[i] = v
        elif how == 2 and t == "null":
            exprs.append({f.text: None})
            fixed[i] = None
        else:
            fields.append({"name": "x%d" % i, "type": t})
            exprs.append({f.text: "input.x%d" % i})
    fields.append({"name": "pad", "type": "null"})
    unp = None
    if all(f.kind != "raw" for f in fmts):
        unp = {"unpack": "packed", "format": [{"y%d" % i: f.text} for i, f in enumerate(fmts)],
               "then": [{"type": "Back", "new": {"y%d" % i: "y%d" % i for i in range(len(fmts))}}], "else": [None]}
        back = {"type": "record", "name": "Back", "fields": [{"name": "y%d" % i, "type": f.type} for i, f in enumerate(fmts)]}
        out = {"type": "record", "name": "Out", "fields": [{"name": "b", "type": "bytes"}, {"name": "r", "type": [back, "null"]}]}
        action = [{"let": {"packed": {"pack": exprs}}}, {"type": "Out", "new": {"b": "packed", "r": unp}}]
    else:
        out, action = "bytes", [{"pack": exprs}]
    doc = {"input": {"type": "record", "name": "In", "fields": fields}, "output": out, "cells": cells, "action": action}
    d.note(doc)
    d.sut()
    e = build(doc)
    for _ in range(3):
        x, vals, code, bad = {"pad": None}, [], None, False
        for i, (f, t) in enumerate(zip(fmts, types)):
            v = fixed[i] if i in fixed else value(d, f, t)
            if i not in fixed and d.chance(1, 12):
                if f.kind == "rawN":
                    v = v + b"!" if f.n == 0 or d.bool() else v[:-1]
                    code = code or 3000
                elif f.kind == "prefixed":
                    v = b"y" * d.choice([256, 300])
                    code = code or 3001
            if i not in fixed:
                x["x%d" % i] = v.decode("latin-1") if isinstance(v, bytes) and d.bool() else v
            vals.append(v)
        d.note(x)
        got = outcome(e.action, x)
        d.label("ok" if code is None else "err %d" % code)
        if len(fmts) > 1:
            d.nontrivial(repr((doc["action"], x)))
        if code is not None:
            if got != ("err", code):
                raise Violation("pack of %s: got %s, expected error %d" % (show(vals), show(got), code))
            continue
        want = b"".join(f.encode(v) for f, v in zip(fmts, vals))
        if got[0] != "ok":
            raise Violation("pack of %s: got %s, expected %r" % (show(vals), show(got), want))
        b = got[1] if unp is None else got[1]["b"]
        if not eq(b, want):
            raise Violation("pack of %s as %s: got %r, expected %r" % (show(vals), show([f.text for f in fmts]), b, want))
        if unp is not None:
            dec = decode(fmts, want)
            compare(fmts, want, dec, got[1]["r"])
            # fields whose own bytes do not contain a terminator come back as they were
            for f, v, w in zip(fmts, vals, dec):
                if not (f.type in ("double", "float", "long") or eq(w, v)):
                    raise AssertionError((f.text, v, w))


def value(d, f, t):
    v = f.gen(d)
    if t == "int" and f.type != "int":
        return d.choice([0, 1, 2, 2147483647, d.int(0, 1000)] + ([-1, -2147483648] if f.kind not in ("ulong", "uint") else []))
    if t == "float" and f.type == "double" and isinstance(v, float):
        return f32(d) if f.kind != "ulong" else float(d.int(0, 4096))
    return v


def compare(fmts, data, want, got):
    if want is None:
        if got is not None:
            raise Violation("unpack of %r as %s: got %s, expected the else branch" % (data, show([f.text for f in fmts]), show(got)))
        return
    if isinstance(got, dict) and len(got) == 1 and "Back" in got:
        got = got["Back"]
    if got is None:
        raise Violation("unpack of %r as %s: got the else branch, expected %s" % (data, show([f.text for f in fmts]), show(want)))
    for i, w in enumerate(want):
        if not eq(got["y%d" % i], w):
            raise Violation("unpack of %r as %s: got %s, expected %s" % (data, show([f.text for f in fmts]), show(got), show(want)))


def unpack(d):
    fmts = [Fmt(d, True) for _ in range(d.weighted([(1, 1), (6, d.int(2, 5))]))]
    back = {"type": "record", "name": "Back", "fields": [{"name": "y%d" % i, "type": f.type} for i, f in enumerate(fmts)]}
    noelse = d.chance(1, 4)
    then = {"type": "Back", "new": {"y%d" % i: "y%d" % i for i in range(len(fmts))}}
    u = {"unpack": "input", "format": [{"y%d" % i: f.text} for i, f in enumerate(fmts)]}
    if noelse:
        # the result is kept in a cell; a then clause in a user function, called for its effect
        doc = {"input": "bytes", "output": [back, "null"], "cells": {"c": {"type": ["null", "Back"], "init": None}},
               "action": [{"cell": "c", "to": None}, dict(u, then=[{"cell": "c", "to": {"type": "Back", "new": then["new"]}}]), {"cell": "c"}]}
        doc["cells"]["c"]["type"] = ["Back", "null"]
    else:
        doc = {"input": "bytes", "output": [back, "null"], "action": [dict(u, then=[then], **{"else": [None]})]}
    # the bytes come from the input, or are those of a literal, of the start of a cell or of what was put there
    source = d.choice(["input", "input", "literal", "cell", "stored"])
    once = b"".join(f.encode(f.gen(d)) for f in fmts)
    if d.bool():
        once = once[:d.below(len(once) + 1)]
    if source != "input":
        read = {"literal": {"type": "bytes", "value": once.decode("latin-1")}}.get(source, {"cell": "b"})
        doc = json.loads(json.dumps(doc).replace('"unpack": "input"', '"unpack": ' + json.dumps(read)))
        doc.setdefault("cells", {})["b"] = {"type": "bytes", "init": once.decode("latin-1")}
        if source == "stored":
            doc["action"] = [{"cell": "b", "to": "input"}] + doc["action"]
    d.label("from " + source)
    d.note(doc)
    d.sut()
    e = build(doc)
    for _ in range(5):
        data = b"".join(f.encode(f.gen(d)) for f in fmts)
        how = d.below(5)
        if how == 1:
            data = data[:d.below(len(data) + 1)]
        elif how == 2:
            data = data + raw(1, 3)(d)
        elif how == 3 and data:
            i = d.below(len(data))
            data = data[:i] + bytes([d.choice([0, 1, 2, 127, 128, 255])]) + data[i + 1:]
        elif how == 4:
            data = raw(0, 12)(d)
        if source in ("literal", "cell"):
            data = once
        d.note(repr(data))
        want = decode(fmts, data)
        x = data.decode("latin-1") if d.bool() else data
        got = outcome(e.action, x)
        if got[0] != "ok":
            raise Violation("unpack of %r: got %s" % (data, show(got)))
        d.label("then" if want is not None else "else")
        compare(fmts, data, want, got[1])
        if len(fmts) > 1:
            d.nontrivial(repr((doc["action"], data)))


BADFMT = ["", "int12", "int128", "integer", "longlong int", "floats", "float 64", "bool", "unsigned", "signed int", "raw-1", "raw x", "raw 5 bytes", "pads", "padding", "byte order", "big", "<", "< >int", "null", "length", "string", "unsigned float",
          "double double", "prefixed null terminated", "int8x", "x int", "uint", "little endian int", "boolean?"]


def refused(d):
    """unknown formats and mistyped values do not compile"""
    fmts = [Fmt(d, True) for _ in range(d.int(1, 3))]
    i = d.below(len(fmts))
    how = d.below(4)
    texts = [f.text for f in fmts]
    types = [f.type for f in fmts]
    bad = True
    if how == 0:
        texts[i] = d.choice(BADFMT)
    elif how == 1:
        opts = {"null": ["int", "bytes"], "boolean": ["int", "string"], "int": ["long", "double", "boolean", "string"], "long": ["float", "double", "bytes"], "float": ["double", "string"], "double": ["string", "boolean"],
                "bytes": ["string", "int", {"type": "fixed", "name": "F2", "size": 2}, {"type": "array", "items": "int"}]}
        types[i] = d.choice(opts[types[i]])
    elif how == 2:
        bad = False
    if d.bool() or how == 1:
        fields = [{"name": "x%d" % j, "type": t} for j, t in enumerate(types)]
        doc = {"input": {"type": "record", "name": "In", "fields": fields}, "output": "bytes", "action": [{"pack": [{t: "input.x%d" % j} for j, t in enumerate(texts)]}]}
        if how == 3:
            doc["output"] = "string"
    else:
        doc = {"input": "bytes", "output": "string", "action": [{"unpack": "input", "format": [{"y%d" % j: t} for j, t in enumerate(texts)], "then": [{"string": "a"}], "else": [{"string": "b"}]}]}
        if how == 3:
            k = d.below(4)
            if k == 0:
                doc["action"][0]["format"][i] = {"y%d" % i: "raw"}
            elif k == 1:
                doc["input"] = "string"
            elif k == 2:
                doc["action"][0]["format"][i] = {"input": texts[i]}
            else:
                doc["action"][0]["format"].append({"y0": "int"})
    d.note(doc)
    d.sut()
    got = compile_outcome(doc)
    d.nontrivial(repr(doc))
    d.label("refused" if bad else "fine")
    if (got[0] != "ok") != bad:
        raise Violation("%s: %s" % (show(doc["action"]), show(got)))
    if bad and got[0] != "semantic":
        raise Violation("%s: %s, expected a semantic error" % (show(doc["action"]), show(got)))


def out_of_range(d):
    """numbers that do not fit their format raise a PFA error"""
    k, t, v = d.choice([("byte", "int", 128), ("byte", "int", -129), ("unsigned byte", "int", -1), ("unsigned byte", "int", 256), ("short", "int", 40000), ("unsigned short", "int", -1), ("unsigned int", "long", -1),
                        ("int", "int", 2 ** 31 - 1), ("unsigned int", "long", 2 ** 32), ("unsigned long", "double", -1.0), ("unsigned long", "double", 2.0 ** 64), ("unsigned long", "double", float("nan")),
                        ("byte", "int", 127), ("float", "double", 1.5), ("short", "int", -32768)])
    if k == "float":
        t = "float"
    e = build({"input": t, "output": "bytes", "action": [{"pack": [{k: "input"}]}]})
    d.note((k, v))
    d.nontrivial(repr((k, v)))
    try:
        got = outcome(e.action, v)
    except (struct.error, ValueError, OverflowError) as err:
        raise Violation("pack of %r as %s: %s" % (v, k, err), "pack-range")


def probe_range():
    e = build({"input": "int", "output": "bytes", "action": [{"pack": [{"byte": "input"}]}]})
    try:
        outcome(e.action, 128)
    except struct.error:
        return True
    return False


PROBES = {"pack-range": probe_range}
SUBS = [Sub("pack", pack, 400, 8000), Sub("unpack", unpack, 400, 8000), Sub("refused", refused, 300, 4000), Sub("range", out_of_range, 30, 60)]
