"""C07: Avro container files and JSON lines through engines."""
import io
import json
import os
import struct
import tempfile

import avro.schema
from avro.datafile import DataFileReader, DataFileWriter
from avro.io import DatumReader, DatumWriter

import avt
from avt import tag
from c06_data import admit, canon, bare, exact, short, Refuse, Open, Symbol
from pbt import Violation, Discard, show
from runner import Sub
from engines import build
from titus.datatype import jsonToAvroType, jsonEncoder, jsonDecoder

RULE = ("generated types and sequences of values: container files written by an independent tag-exact encoder (null and deflate codecs, several blocks) are read by the engine's input iterator and scored, outputs "
        "of map, emit and fold engines are written with the engine's writer and read back with a standard reader and an independent decoder, and JSON lines make the round trip; "
        "non-trivial = at least two values of a type with a container, union or named type; distinct = distinct (type, values)")
ASSUMPTIONS = ["values of float type are exactly representable in 32 bits", "the standard Avro reader gives union members without tags: the engine then admits them as it does any bare datum (C06)"]
FACTOR = {"quick": 2, "thorough": 10}
OPTS = avt.ValOpts(nan=True, bigfloat=True)


def zigzag(n):
    n = (n << 1) ^ (n >> 63)
    n &= (1 << 64) - 1
    out = bytearray()
    while n & ~0x7f:
        out.append((n & 0x7f) | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def encode(v, t, env):
    """Avro binary encoding of a model value"""
    k = t[0]
    if k == "null":
        return b""
    if k == "boolean":
        return b"\1" if v else b"\0"
    if k in ("int", "long"):
        return zigzag(v)
    if k == "float":
        return struct.pack("<f", v)
    if k == "double":
        return struct.pack("<d", v)
    if k == "bytes":
        return zigzag(len(v)) + v
    if k == "fixed":
        return v
    if k == "string":
        v = v.encode("utf-8")
        return zigzag(len(v)) + v
    if k == "enum":
        return zigzag(env.enums[t[1]].index(v))
    if k == "array":
        return (zigzag(len(v)) + b"".join(encode(x, t[1], env) for x in v) if v else b"") + b"\0"
    if k == "map":
        return (zigzag(len(v)) + b"".join(encode(a, avt.STRING, env) + encode(x, t[1], env) for a, x in v.items()) if v else b"") + b"\0"
    if k == "record":
        return b"".join(encode(v[f[0]], f[1], env) for f in env.records[t[1]])
    for i, b in enumerate(t[1]):
        if (v is None and b[0] == "null") or (v is not None and tag(b) == v.tag):
            return zigzag(i) + (b"" if v is None else encode(v.v, b, env))
    raise AssertionError((v, t))


class Reader(object):
    """decodes model values"""
    def __init__(self, data):
        self.data, self.i = data, 0

    def take(self, n):
        if self.i + n > len(self.data):
            raise Violation("Avro data end too early")
        self.i += n
        return self.data[self.i - n:self.i]

    def long(self):
        n, s = 0, 0
        while True:
            b = self.take(1)[0]
            n |= (b & 0x7f) << s
            s += 7
            if not b & 0x80:
                return (n >> 1) ^ -(n & 1)

    def blocks(self):
        while True:
            n = self.long()
            if n < 0:
                self.long()
                n = -n
            if n == 0:
                return
            for _ in range(n):
                yield None

    def read(self, t, env):
        k = t[0]
        if k == "null":
            return None
        if k == "boolean":
            return self.take(1) == b"\1"
        if k in ("int", "long"):
            return self.long()
        if k == "float":
            return struct.unpack("<f", self.take(4))[0]
        if k == "double":
            return struct.unpack("<d", self.take(8))[0]
        if k == "bytes":
            return self.take(self.long())
        if k == "fixed":
            return self.take(env.fixeds[t[1]])
        if k == "string":
            return self.take(self.long()).decode("utf-8")
        if k == "enum":
            return env.enums[t[1]][self.long()]
        if k == "array":
            return [self.read(t[1], env) for _ in self.blocks()]
        if k == "map":
            return {self.read(avt.STRING, env): self.read(t[1], env) for _ in self.blocks()}
        if k == "record":
            return {f[0]: self.read(f[1], env) for f in env.records[t[1]]}
        b = t[1][self.long()]
        v = self.read(b, env)
        return None if b[0] == "null" else avt.U(tag(b), v)


class Raw(DatumWriter):
    def write(self, datum, encoder):
        encoder.write(datum)


def barebytes(v, t, env):
    """what a standard Avro reader gives"""
    k = t[0]
    if k == "array":
        return [barebytes(x, t[1], env) for x in v]
    if k == "map":
        return {a: barebytes(x, t[1], env) for a, x in v.items()}
    if k == "record":
        return {f[0]: barebytes(v[f[0]], f[1], env) for f in env.records[t[1]]}
    if k == "union":
        return None if v is None else barebytes(v.v, [b for b in t[1] if tag(b) == v.tag][0], env)
    return v


def setup(d):
    env = avt.gen_env(d, prefix="com.ns." if d.chance(1, 4) else "")
    env.multinum = d.bool()
    t = avt.gen_type(d, env, depth=3) if d.chance(1, 3) else d.choice([avt.ARRAY, avt.MAP, lambda x: x])(avt.gen_union(d, env, 2, hi=4) if d.bool() else d.choice(env.types() or [avt.gen_type(d, env, depth=2)]))
    n = d.choice([0, 1, 2, 3, 5, 8])
    vs = [avt.gen_value(d, t, env, OPTS) for _ in range(n)]
    if d.chance(1, 6) and vs:
        vs = vs * d.choice([10, 300])       # more than one block, for longer values
    return env, t, vs


RICH = ("array", "map", "union", "record", "enum", "fixed")


def engine(d, t, env, method):
    declared = set()
    it = avt.tojson(t, env, declared)
    ot = avt.tojson(t, env, declared)
    doc = {"input": it, "output": ot, "method": method, "action": ["input"]}
    if method == "emit":
        doc["action"] = [{"emit": ["input"]}] * d.int(1, 2)
    if method == "fold":
        doc["zero"] = d.note_zero
        doc["merge"] = ["tallyOne"]
    d.note(doc)
    try:
        return build(doc), doc
    except Exception:
        raise Discard()


def inputs(d):
    env, t, vs = setup(d)
    e, doc = engine(d, t, env, "map")
    d.note(repr(vs[:8]))
    schema = avro.schema.Parse(json.dumps(doc["input"]))
    buf = io.BytesIO()
    w = DataFileWriter(buf, Raw(), schema, codec=d.choice(["null", "null", "deflate"]))
    for v in vs:
        w.append(encode(v, t, env))
        if d.chance(1, 50):
            w.sync()
    w.flush()
    buf.seek(0)
    d.sut()
    source = e
    if d.bool():
        source = build({"input": doc["input"], "output": "string", "action": [{"string": "x"}]})
    it = source.avroInputIterator(buf)
    n = 0
    for x in it:
        if n >= len(vs):
            raise Violation("more values than were written")
        if not exact(x, barebytes(vs[n], t, env)):
            raise Violation("value %d of type %s is read as %r, written %r" % (n, json.dumps(doc["input"]), x, vs[n]))
        try:
            want = admit(x, t, env)
        except (Refuse, Open, Symbol):
            raise AssertionError(x)
        got = e.action(x)
        if not exact(got, want):
            raise Violation("value %d of type %s enters as %r, expected %r" % (n, json.dumps(doc["input"]), got, want))
        n += 1
    if n != len(vs):
        raise Violation("%d values of %d are read" % (n, len(vs)))
    if len(vs) > 1 and t[0] in RICH:
        d.nontrivial(repr((doc["input"], vs[:10], len(vs))))


def outputs(d):
    env, t, vs = setup(d)
    method = d.choice(["map", "map", "emit", "fold"])
    d.note_zero = canon(avt.gen_value(d, t, env, avt.DEFAULT), t, env, True)
    e, doc = engine(d, t, env, method)
    d.note(repr(vs[:8]))
    fd, path = tempfile.mkstemp(dir=os.environ.get("VERIF_WORK"))
    os.close(fd)
    try:
        if d.bool():
            with open(path, "wb") as fp:
                fp.write(b"something longer that was there before" * 40)
        d.sut()
        w = e.avroOutputDataFileWriter(path)
        k = 1
        if method == "emit":
            e.emit = w.append
            k = len(doc["action"])
        for v in vs:
            x = canon(v, t, env, False)
            if method == "emit":
                e.action(x)
            else:
                w.append(e.action(x))
        w.close()
        want = [v for v in vs for _ in range(k)]
        with open(path, "rb") as fp:
            r = DataFileReader(fp, DatumReader())
            got = list(r)
            meta = json.loads(r.GetMeta("avro.schema").decode("utf-8"))
        if len(got) != len(want):
            raise Violation("%d values were written, %d are read back" % (len(want), len(got)))
        for i, (a, v) in enumerate(zip(got, want)):
            if not exact(a, barebytes(v, t, env)):
                raise Violation("value %d of type %s is read back as %r, written %r" % (i, json.dumps(doc["output"]), a, v))
        # branch-exact: the blocks decoded by hand
        with open(path, "rb") as fp:
            raw = Reader(fp.read())
        if raw.take(4) != b"Obj\1":
            raise Violation("not an Avro container file")
        head = raw.read(avt.MAP(avt.BYTES), env)
        if head.get("avro.codec", b"null") != b"null":
            raise Violation("unexpected codec")
        sync = raw.take(16)
        vals = []
        while raw.i < len(raw.data):
            n = raw.long()
            size = raw.long()
            end = raw.i + size
            for _ in range(n):
                vals.append(raw.read(t, env))
            if raw.i != end:
                raise Violation("block of %d bytes has %d" % (size, size - (end - raw.i)))
            if raw.take(16) != sync:
                raise Violation("bad sync marker")
        for i, (a, v) in enumerate(zip(vals, want)):
            if not exact(canon(a, t, env, False), canon(v, t, env, False)):
                raise Violation("value %d of type %s is decoded as %r, written %r" % (i, json.dumps(doc["output"]), a, v))
        if len(vals) != len(want):
            raise Violation("%d values of %d are in the blocks" % (len(vals), len(want)))
        if jsonToAvroType(json.dumps(meta)).toJson() != e.outputType.toJson() and not e.outputType.accepts(jsonToAvroType(json.dumps(meta))):
            raise Violation("schema of the file is %s, output type %s" % (meta, doc["output"]))
    finally:
        os.unlink(path)
    d.label(method)
    if len(vs) > 1 and t[0] in RICH:
        d.nontrivial(repr((doc, vs[:10], len(vs))))


def lines(d):
    """JSON lines: written from the output of one engine, read by another with the same type"""
    env, t, vs = setup(d)
    vs = vs[:20]
    e, doc = engine(d, t, env, "map")
    e2 = build(doc)
    d.note(repr(vs))
    d.sut()
    text = []
    for v in vs:
        out = e.action(canon(v, t, env, d.bool()))
        text.append(json.dumps(jsonEncoder(e.outputType, out)))
    for line, v in zip("\n".join(text).split("\n") if text else [], vs):
        x = jsonDecoder(e2.inputType, json.loads(line))
        got = e2.action(x)
        if not exact(got, canon(v, t, env, False)):
            raise Violation("%s of type %s comes back as %r from the line %s" % (v, json.dumps(doc["input"]), got, line))
    if len(vs) > 1 and t[0] in RICH:
        d.nontrivial(repr((doc["input"], vs)))


SUBS = [Sub("inputs", inputs, 300, 5000), Sub("outputs", outputs, 300, 5000), Sub("lines", lines, 300, 5000)]
