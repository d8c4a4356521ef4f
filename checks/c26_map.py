"""C26: map and set functions against independent references."""
import base64

from pbt import Violation, same, show
from runner import Sub
from engines import Err, check_call, libcall, norm, outcome, build

RULE = ("one generated call per case over maps and arrays of ints, longs, doubles, strings, bytes, enums, records, nullable ints, nested arrays and maps, with keys "
        "including the empty string and non-ASCII text; non-trivial = some collection is not empty; distinct = distinct (function, types, arguments)")
ASSUMPTIONS = ["the order of map.keys, map.values, map.split and map.fromset is unspecified (compared as bags)",
               "set keys are compared with an independent Avro binary encoder in base64; records, enums, arrays and maps included",
               "map.add with an item and map.in use the item's own encoding"]

I, L, D, S, Bo = "int", "long", "double", "string", "boolean"


def A(t):
    return {"type": "array", "items": t}


def M(t):
    return {"type": "map", "values": t}


EN = {"type": "enum", "name": "En", "symbols": ["zed", "one", "mid"]}
FX = {"type": "fixed", "name": "Fx", "size": 2}
REC = {"type": "record", "name": "Rec", "fields": [{"name": "a", "type": "int", "order": "descending"}, {"name": "b", "type": "string"}, {"name": "c", "type": "double"}]}


# ---- independent Avro binary encoder

def zz(n):
    n = (n << 1) ^ (n >> 63)
    n &= (1 << 64) - 1
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


def enc(v, t):
    import struct
    if isinstance(t, list):
        if v is None:
            return zz(t.index("null"))
        (tag, x), = v.items()
        for i, a in enumerate(t):
            if (a if isinstance(a, str) else a.get("name", a["type"])) == tag:
                return zz(i) + enc(x, a)
        raise AssertionError
    k = t if isinstance(t, str) else t["type"]
    if k == "null":
        return b""
    if k == "boolean":
        return b"\x01" if v else b"\x00"
    if k in ("int", "long"):
        return zz(v)
    if k == "float":
        return struct.pack("<f", v)
    if k == "double":
        return struct.pack("<d", v)
    if k == "string":
        b = v.encode("utf-8")
        return zz(len(b)) + b
    if k == "bytes":
        return zz(len(v)) + v
    if k == "fixed":
        return v
    if k == "enum":
        return zz(t["symbols"].index(v))
    if k == "record":
        return b"".join(enc(v[f["name"]], f["type"]) for f in t["fields"])
    if k == "array":
        return (zz(len(v)) + b"".join(enc(x, t["items"]) for x in v) if v else b"") + b"\x00"
    if k == "map":
        return (zz(len(v)) + b"".join(enc(a, "string") + enc(v[a], t["values"]) for a in sorted(v)) if v else b"") + b"\x00"
    raise AssertionError(t)


def key(v, t):
    return base64.b64encode(enc(v, t)).decode()


ITEMS = [
    ("int", I, lambda d: d.smallint(2) if d.chance(4, 5) else d.pfaint()),
    ("long", L, lambda d: d.smallint(2) if d.chance(4, 5) else d.pfalong()),
    ("double", D, lambda d: d.smallint(4) / 2.0),
    ("string", S, lambda d: d.str(u"ab\u00e9\u65e5", 0, 2)),
    ("boolean", Bo, lambda d: d.bool()),
    ("bytes", "bytes", lambda d: bytes(d.choice([0, 65, 200]) for _ in range(d.below(3)))),
    ("fixed", FX, lambda d: bytes(d.choice([0, 65, 200]) for _ in range(2))),
    ("enum", EN, lambda d: d.choice(EN["symbols"])),
    ("record", REC, lambda d: {"a": d.smallint(1), "b": d.choice(["x", u"\u00e9"]), "c": d.choice([0.0, 1.5])}),
    ("opt", ["null", I], lambda d: None if d.chance(1, 3) else {"int": d.smallint(1)}),
    ("union", [S, REC, "null"], lambda d: [None, {"string": d.choice("ab")}, {"Rec": {"a": d.smallint(1), "b": "x", "c": 0.0}}][d.below(3)]),
    ("nested", A(I), lambda d: d.list(lambda: d.smallint(1), 0, 2)),
    ("nestedmap", M(I), lambda d: {d.choice(["p", "q"]): d.smallint(1) for _ in range(d.below(3))}),
]
ORDERED = ("int", "double", "string", "enum", "record")


class It(object):
    pass


def item(d, names=None):
    n, t, g = d.choice([x for x in ITEMS if names is None or x[0] in names])
    return n, t, lambda: g(d)


KEYS = ["a", "b", "c", "", u"\u00e9", "one two", "zz"]


def mp(d, g, hi=5):
    return {d.choice(KEYS): g() for _ in range(d.below(hi + 1))}


def bag(got, want):
    got, want = norm(got), norm(want)
    if len(got) != len(want):
        return False
    left = list(want)
    for x in got:
        for i, y in enumerate(left):
            if same(x, y):
                left.pop(i)
                break
        else:
            return False
    return True


def eq(got, want):
    return same(norm(got), norm(want))


SUBS = []


def sub(fcn, make, quick=120, cmp=eq, names=None):
    def case(d):
        n, t, g = item(d, names)
        params, ret, args, ref = make(d, n, t, g)
        d.label(n)
        check_call(d, fcn, params, ret, args, ref, eq=cmp, nontrivial=any(len(a) for a in args if isinstance(a, (dict, list))))
    SUBS.append(Sub(fcn, case, quick, quick * 25))


sub("map.len", lambda d, n, t, g: ([M(t)], I, [mp(d, g)], len), 60)
sub("map.keys", lambda d, n, t, g: ([M(t)], A(S), [mp(d, g)], list), 60, bag)
sub("map.values", lambda d, n, t, g: ([M(t)], A(t), [mp(d, g)], lambda m: list(m.values())), 60, bag)
sub("map.containsKey", lambda d, n, t, g: ([M(t), S], Bo, [mp(d, g), d.choice(KEYS)], lambda m, k: k in m))
sub("map.containsValue", lambda d, n, t, g: ([M(t), t], Bo, [mp(d, g), g()], lambda m, v: any(same(v, x) for x in m.values())))


def add(d, n, t, g):
    m, k, v = mp(d, g), d.choice(KEYS), g()
    return [M(t), S, t], M(t), [m, k, v], lambda m, k, v: dict(list(m.items()) + [(k, v)])


sub("map.add", add)
sub("map.remove", lambda d, n, t, g: ([M(t), S], M(t), [mp(d, g), d.choice(KEYS)], lambda m, k: {a: b for a, b in m.items() if a != k}))
sub("map.only", lambda d, n, t, g: ([M(t), A(S)], M(t), [mp(d, g), d.list(lambda: d.choice(KEYS + ["no"]), 0, 4)], lambda m, ks: {a: b for a, b in m.items() if a in ks}))
sub("map.except", lambda d, n, t, g: ([M(t), A(S)], M(t), [mp(d, g), d.list(lambda: d.choice(KEYS + ["no"]), 0, 4)], lambda m, ks: {a: b for a, b in m.items() if a not in ks}))


def merged(a, b):
    out = dict(a)
    out.update(b)
    return out


sub("map.update", lambda d, n, t, g: ([M(t), M(t)], M(t), [mp(d, g), mp(d, g)], merged))
sub("map.split", lambda d, n, t, g: ([M(t)], A(M(t)), [mp(d, g)], lambda m: [{k: v} for k, v in m.items()]), 80, bag)


def join(ms):
    out = {}
    for m in ms:
        out.update(m)
    return out


sub("map.join", lambda d, n, t, g: ([A(M(t))], M(t), [d.list(lambda: mp(d, g, 3), 0, 4)], join))


def okey(n, v):
    if n == "enum":
        return EN["symbols"].index(v)
    if n == "record":
        return (-v["a"], v["b"], v["c"])
    return v


def ranked(n, m, high):
    """keys from the best value on; ties in order of the key"""
    ks = sorted(m)
    return sorted(ks, key=lambda k: okey(n, m[k]), reverse=False) if not high else \
        [k for k in sorted(sorted(m), key=lambda k: okey(n, m[k]), reverse=True)]


def stable_high(n, m):
    import functools
    ks = sorted(m)

    def c(a, b):
        x, y = okey(n, m[a]), okey(n, m[b])
        return -1 if x > y else 1 if x < y else (a > b) - (a < b)
    return sorted(ks, key=functools.cmp_to_key(c))


def ext(name, code, high, many):
    def ref_for(n):
        def ref(m, k=1):
            if not m:
                raise Err(code)
            if k < 0:
                raise Err(code + 1)
            r = stable_high(n, m) if high else ranked(n, m, False)
            return r[:k] if many else r[0]
        return ref
    if many:
        sub(name, lambda d, n, t, g: ([M(t), I], A(S), [mp(d, g, 7), d.int(-1, 7)], ref_for(n)), 150, names=ORDERED)
    else:
        sub(name, lambda d, n, t, g: ([M(t)], S, [mp(d, g, 7)], ref_for(n)), 120, names=ORDERED)


ext("map.argmax", 26120, True, False)
ext("map.argmin", 26130, False, False)
ext("map.argmaxN", 26160, True, True)
ext("map.argminN", 26170, False, True)

# ---- sets


def mkset(d, t, g, hi=4):
    return {key(v, t): v for v in [g() for _ in range(d.below(hi + 1))]}


sub("map.toset", lambda d, n, t, g: ([A(t)], M(t), [d.list(g, 0, 5)], lambda a: {key(v, t): v for v in a}), 300)
sub("map.fromset", lambda d, n, t, g: ([M(t)], A(t), [mkset(d, t, g)], lambda s: list(s.values())), 60, bag)
sub("map.in", lambda d, n, t, g: ([M(t), t], Bo, [mkset(d, t, g), g()], lambda s, x: key(x, t) in s), 200)
for nm, f in (("union", lambda a, b: merged(a, b)), ("intersection", lambda a, b: {k: v for k, v in a.items() if k in b}),
              ("diff", lambda a, b: {k: v for k, v in a.items() if k not in b}),
              ("symdiff", lambda a, b: {k: v for k, v in list(a.items()) + list(b.items()) if (k in a) != (k in b)})):
    sub("map." + nm, (lambda f: lambda d, n, t, g: ([M(t), M(t)], M(t), [mkset(d, t, g), mkset(d, t, g)], f))(f))
sub("map.subset", lambda d, n, t, g: ([M(t), M(t)], Bo, list(subsetpair(d, t, g)), lambda a, b: set(a) <= set(b)))
sub("map.disjoint", lambda d, n, t, g: ([M(t), M(t)], Bo, [mkset(d, t, g, 2), mkset(d, t, g, 2)], lambda a, b: not set(a) & set(b)))


def subsetpair(d, t, g):
    b = mkset(d, t, g)
    if d.bool():
        return {k: v for k, v in b.items() if d.bool()}, b
    return mkset(d, t, g, 2), b


def additem(d):
    n, t, g = item(d)
    s, x = mkset(d, t, g), g()
    want = dict(s)
    want[key(x, t)] = x
    d.label(n)
    check_call(d, "map.add", [M(t), t], M(t), [s, x], lambda s, x: want, eq=eq)


SUBS.append(Sub("map.add-item", additem, 200, 5000))


def algebra(d):
    """laws of sets, on maps built by the functions themselves"""
    n, t, g = item(d)
    a, b, c = [d.list(g, 0, 4) for _ in range(3)]
    tt = t
    sA, sB, sC = [{"map.toset": ["input." + x]} for x in "abc"]
    U = lambda x, y: {"map.union": [x, y]}
    N = lambda x, y: {"map.intersection": [x, y]}
    DI = lambda x, y: {"map.diff": [x, y]}
    SD = lambda x, y: {"map.symdiff": [x, y]}
    laws = [(U(sA, sB), U(sB, sA)), (N(sA, sB), N(sB, sA)), (N(sA, U(sB, sC)), U(N(sA, sB), N(sA, sC))), (U(sA, N(sB, sC)), N(U(sA, sB), U(sA, sC))),
            (SD(sA, sB), U(DI(sA, sB), DI(sB, sA))), (SD(sA, sB), DI(U(sA, sB), N(sA, sB))), (DI(sA, U(sB, sC)), N(DI(sA, sB), DI(sA, sC))),
            (sA, {"map.toset": [{"map.fromset": [sA]}]})]
    i = d.below(len(laws))
    l, r = laws[i]
    flds = [{"name": "a", "type": A(tt)}, {"name": "b", "type": A(nm(tt))}, {"name": "c", "type": A(nm(tt))}]
    doc = {"input": {"type": "record", "name": "In", "fields": flds}, "output": A(M(nm(tt))), "action": [{"type": A(M(nm(tt))), "new": [l, r]}]}
    d.note({"type": t, "a": a, "b": b, "c": c, "law": i})
    d.sut()
    o = build(doc).action({"a": a, "b": b, "c": c})
    if not same(norm(o[0]), norm(o[1])):
        raise Violation("set law %d fails on %s, %s, %s (%s): %s differs from %s" % (i, show(a), show(b), show(c), n, show(o[0]), show(o[1])))
    bools = build({"input": {"type": "record", "name": "In", "fields": flds}, "output": A(Bo),
                   "action": [{"type": A(Bo), "new": [{"map.subset": [N(sA, sB), sA]}, {"map.subset": [sA, U(sA, sB)]}, {"map.disjoint": [DI(sA, sB), sB]},
                                                      {"map.disjoint": [SD(sA, sB), N(sA, sB)]}]}]}).action({"a": a, "b": b, "c": c})
    if list(bools) != [True] * 4:
        raise Violation("subset and disjointness laws fail on %s, %s (%s): %s" % (show(a), show(b), n, bools))
    if a or b:
        d.nontrivial(repr((i, t, a, b, c)))
    d.label("law %d" % i)


def nm(t):
    """reference to a type declared by the first field"""
    if isinstance(t, dict) and "name" in t:
        return t["name"]
    if isinstance(t, list):
        return [nm(x) for x in t]
    return t


SUBS.append(Sub("algebra", algebra, 250, 5000))
