"""C24: array functions (access, search, modification, order, statistics, sets) against independent references."""
import math
from fractions import Fraction
from functools import cmp_to_key

from pbt import Violation, close
from runner import Sub
from engines import Err, check_call, libcall
from libfn import V, fnsub, fcnarg

RULE = ("one generated call per case over arrays of ints, doubles, strings, enums, records with descending and ignored fields, and nested arrays, with many "
        "equal items; indexes inside, at and beyond both ends; distinct = distinct (function, argument types, arguments)")
ASSUMPTIONS = ["sets returned by intersection, union, difference are compared as sets", "equal items of one array have one representation (all from the input)",
               "an array given as needle is searched as a subsequence"]

I, L, D, S, B = "int", "long", "double", "string", "boolean"


def A(t):
    return {"type": "array", "items": t}


EN = {"type": "enum", "name": "En", "symbols": ["zed", "one", "mid"]}
REC = {"type": "record", "name": "Rec", "fields": [{"name": "a", "type": "int", "order": "descending"}, {"name": "b", "type": "string", "order": "ignore"},
                                                   {"name": "c", "type": "double"}]}


class IT(object):
    def __init__(self, name, t, gen, key):
        self.name, self.t, self.gen, self.key = name, t, gen, key


ITEMS = [
    IT("int", I, lambda d: d.smallint(3) if d.chance(4, 5) else d.pfaint(), lambda x: x),
    IT("double", D, lambda d: d.smallint(4) / 2.0, lambda x: x),
    IT("string", S, lambda d: d.str("ab", 0, 2), lambda x: x),
    IT("enum", EN, lambda d: d.choice(EN["symbols"]), lambda x: EN["symbols"].index(x)),
    IT("record", REC, lambda d: {"a": d.smallint(1), "b": d.choice("xy"), "c": d.choice([0.0, 1.5, -2.0])}, lambda x: (-x["a"], x["c"])),
    IT("nested", A(I), lambda d: d.list(lambda: d.smallint(1), 0, 2), lambda x: x),
]
BASIC = [it for it in ITEMS if it.name != "nested"]


def item(d, pool=ITEMS):
    return d.choice(pool)


def arr(d, it, hi=6):
    return d.list(lambda: it.gen(d), 0, hi)


def ix(d, n=6):
    return d.smallint(n + 2) if d.chance(9, 10) else d.pfaint()


def clip(n, s, e):
    def nrm(i):
        i = i if i >= 0 else i + n
        return max(0, min(n, i))
    s, e = nrm(s), nrm(e)
    return s, max(s, e)


def sub(fcn, make, quick=200, pool=ITEMS, eq=None, name=None):
    """make(d, it) -> (params, ret, args, ref) or with a dict of options"""
    def case(d):
        it = item(d, pool)
        m = make(d, it)
        opts = m[4] if len(m) > 4 else {}
        d.label(it.name)
        check_call(d, fcn, m[0], m[1], m[2], m[3], eq=opts.pop("eq", eq), rel=opts.pop("rel", 0), **opts)
    return Sub(name or fcn, case, quick, quick * 25)


def seteq(got, want):
    return all(x in want for x in got) and all(x in got for x in want)


def unary(fcn, ref, ret=None, pool=ITEMS, eq=None, quick=200):
    return sub(fcn, lambda d, it: ([A(it.t)], ret(it) if ret else A(it.t), [arr(d, it)], ref(it)), quick, pool, eq)


def nonempty(code, f):
    def ref(a, *more):
        if not a:
            raise Err(code)
        return f(a, *more)
    return ref


def at(n, i, code):
    j = i if i >= 0 else n + i
    if j < 0 or j >= n:
        raise Err(code)
    return j


def insert(a, i, x):
    j = at(len(a), i, 15160)
    return a[:j] + [x] + a[j:]


def replace(a, i, x):
    j = at(len(a), i, 15170)
    return a[:j] + [x] + a[j + 1:]


def remove1(a, i):
    j = at(len(a), i, 15180)
    return a[:j] + a[j + 1:]


def remove2(a, s, e):
    s, e = clip(len(a), s, e)
    return [x for k, x in enumerate(a) if not s <= k < e]


def subseq(a, s, e):
    s, e = clip(len(a), s, e)
    return [x for k, x in enumerate(a) if s <= k < e]


def subseqto(a, s, e, r):
    s, e = clip(len(a), s, e)
    return a[:s] + r + a[e:]


def cycle(a, x, n):
    if n < 0:
        raise Err(15150)
    full = a + [x]
    return full[max(0, len(full) - n):]


def rotate(a, n):
    if n < 0:
        raise Err(15190)
    if not a:
        return a
    return [a[(k + n) % len(a)] for k in range(len(a))]


def occurrences(h, n):
    return [k for k in range(len(h) - len(n) + 1) if all(h[k + j] == n[j] for j in range(len(n)))]


def search(fcn, fseq, fitem, ret, fpred):
    """fseq(haystack, needle list) fitem(haystack, needle) ; predicates: item position list"""
    def make(d, it):
        k = d.below(3 if fpred else 2)
        h = arr(d, it)
        if k == 0 and it.name != "nested" or it.name == "nested":
            if h and d.chance(2, 3):
                s = d.below(len(h))
                n = h[s:s + d.below(3)]
            else:
                n = arr(d, it, 3)
            if it.name == "nested":
                # arrays as items: the needle is a subsequence
                n = n if d.bool() or not h else h[-1:]
            return [A(it.t), A(it.t)], ret, [h, n], fseq
        if k == 1 or it.name not in ("int", "string"):
            x = d.choice(h) if h and d.bool() else it.gen(d)
            return [A(it.t), it.t], ret, [h, x], fitem
        c = d.smallint(3)
        if it.name == "int":
            e, fs = fcnarg(d, [("x", I)], B, {"<": ["x", "kk"]}, c)
            pred = lambda x: x < c
        else:
            e, fs = fcnarg(d, [("x", S)], B, {">": [{"s.len": ["x"]}, "kk"]}, c)
            pred = lambda x: len(x) > c
        return [A(it.t), e], ret, [h, e], lambda h: fitem([pred(x) for x in h], True), {"fcns": fs} if fs else {}
    return sub(fcn, make, 500)


def lessthan(d, it):
    """a strict weak order as a PFA function and as a Python key"""
    k = d.below(3)
    ps = [("x", it.t), ("y", it.t)]
    if it.name in ("int", "double"):
        if k == 0:
            body, key = {"<": ["x", "y"]}, lambda x: x
        elif k == 1:
            body, key = {">": ["x", "y"]}, lambda x: -x
        else:
            body, key = {"<": [{"*": ["x", "x"]}, {"*": ["y", "y"]}]}, lambda x: x * x
    elif it.name == "string":
        if k < 2:
            body, key = {"<": [{"s.len": ["x"]}, {"s.len": ["y"]}]}, lambda x: len(x)
        else:
            body, key = {">": ["x", "y"]}, lambda x: tuple(-ord(c) for c in x) + (1,)
    elif it.name == "record":
        body, key = {"<": ["x.a", "y.a"]}, lambda x: x["a"]
    else:
        body, key = {"<": ["x", "y"]}, it.key
    ps2 = [(n, it.t if isinstance(it.t, str) else it.t.get("name", it.t)) for n, _ in ps]
    e, fs = fcnarg(d, ps2, B, body)
    return e, {"fcns": fs} if fs else {}, key


SMALLINT = IT("int", I, lambda d: d.smallint(3), lambda x: x)


def stable_sorted(a, key, rev=False):
    out = []
    for x in a:
        i = len(out)
        while i > 0 and (key(x) > key(out[i - 1]) if rev else key(x) < key(out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


def order_family():
    out = []
    out.append(unary("a.sort", lambda it: lambda a: stable_sorted(a, it.key), quick=400))

    def mk_sortlt(d, it):
        it = SMALLINT if it.name == "int" else it
        e, o, key = lessthan(d, it)
        return [A(it.t), e], A(it.t), [arr(d, it), e], lambda a: stable_sorted(a, key), o
    out.append(sub("a.sortLT", mk_sortlt, 400))
    base = {"max": 15240, "min": 15250, "maxLT": 15260, "minLT": 15270, "maxN": 15280, "minN": 15290, "maxNLT": 15300, "minNLT": 15310,
            "argmax": 15320, "argmin": 15330, "argmaxLT": 15340, "argminLT": 15350, "argmaxN": 15360, "argminN": 15370, "argmaxNLT": 15380, "argminNLT": 15390}

    def family(nm, code):
        big, arg, n, lt = "max" in nm, nm.startswith("arg"), "N" in nm, nm.endswith("LT")

        def make(d, it):
            it = SMALLINT if it.name == "int" else it
            a = arr(d, it)
            params, args, o, key = [A(it.t)], [a], {}, it.key
            k = d.smallint(4) if d.chance(1, 4) else d.below(8)
            if n:
                params.append(I)
                args.append(k)
            if lt:
                e, o, key = lessthan(d, it)
                params.append(e)
                args.append(e)

            def ref(a, k=1):
                if not a:
                    raise Err(code)
                if k < 0:
                    raise Err(code + 1)
                r = stable_sorted(list(enumerate(a)), lambda p: key(p[1]), big)[:k]
                r = [p[0] if arg else p[1] for p in r]
                return r if n else r[0]
            ret = I if arg else it.t
            return params, A(ret) if n else ret, args, ref, o
        return sub("a." + nm, make, 220)
    for nm, code in base.items():
        out.append(family(nm, code))
    return out


# ---- numbers

def numitem(d):
    return d.choice([(I, lambda d: d.pfaint() if d.chance(1, 4) else d.smallint(50)), (L, lambda d: d.pfalong() if d.chance(1, 3) else d.smallint(1000)),
                     ("float", lambda d: d.smallint(800) / 8.0), (D, lambda d: d.smallint(8000) / 8.0)])


def numeric(fcn, ref, quick=250, gen=None):
    def case(d):
        t, g = numitem(d)
        a = d.list(lambda: g(d), 0, 5)
        check_call(d, fcn, [A(t)], t, [a], lambda a: ref(a, t), rel=1e-12)
    return Sub(fcn, case, quick, quick * 25)


LIM = {I: (-2**31, 2**31 - 1), L: (-2**63, 2**63 - 1)}


def bound(t, x, code):
    if t in LIM and not LIM[t][0] <= x <= LIM[t][1]:
        raise Err(code + (0 if t == I else 1))
    return x


def asum(a, t):
    s = sum((Fraction(x) for x in a), Fraction(0))
    return bound(t, int(s) if t in LIM else float(s), 15400)


def aprod(a, t):
    s = Fraction(1)
    for x in a:
        s *= Fraction(x)
    return bound(t, int(s) if t in LIM else float(s), 15410)


def dbl(fcn, ref, gen=None, quick=250, rel=1e-10, abs_=1e-12):
    g = gen or (lambda d: d.smallint(800) / 8.0)
    return fnsub(fcn, V([A(D)], D, lambda d: [d.list(lambda: g(d), 0, 5)], ref, rel=rel, abs_=abs_), quick)


def lnsum(a):
    tot = 0.0
    for x in a:
        tot += float("nan") if x < 0 else float("-inf") if x == 0 else math.log(x)
    return tot


def mean(a):
    return float(sum(Fraction(x) for x in a) / len(a)) if a else float("nan")


def geomean(a):
    if not a:
        return float("nan")
    p = Fraction(1)
    for x in a:
        p *= Fraction(x)
    if p < 0:
        return float("nan") if len(a) > 1 else float(p)
    if p == 0:
        return 0.0
    return math.exp(math.log(p.numerator) / len(a) - math.log(p.denominator) / len(a))


def logsumexp(a):
    if not a:
        return float("nan")
    m = max(a)
    return m + math.log(sum(math.exp(x - m) for x in a))


def median(it):
    def ref(a):
        if not a:
            raise Err(15450)
        s = stable_sorted(a, it.key)
        n = len(s)
        if n % 2:
            return s[n // 2]
        if it.t == D:
            return (s[n // 2 - 1] + s[n // 2]) / 2.0
        return s[n // 2 - 1]
    return ref


def keyeq(it):
    """extremes of equal items: any representative"""
    return lambda got, want: got == want or it.key(got) == it.key(want)


def mode_case(d):
    it = item(d)
    a = arr(d, it, 7)

    def ref(a):
        if not a:
            raise Err(15470)
        best = max(sum(1 for y in a if y == x) for x in a)
        cand = []
        for x in a:
            if sum(1 for y in a if y == x) == best and x not in cand:
                cand.append(x)
        return median(it)(cand)
    check_call(d, "a.mode", [A(it.t)], it.t, [a], ref, eq=keyeq(it))


def ntile_case(d):
    it = item(d)
    a = arr(d, it, 7)
    p = d.choice([0.0, 0.5, 1.0, 0.25, 0.1, 0.9, -1.0, 2.0, float("nan")]) if d.bool() else d.unit()

    def ref(a, p):
        if not a:
            raise Err(15460)
        if p != p:
            raise Err(15461)
        s = stable_sorted(a, it.key)
        p = min(1.0, max(0.0, p))
        k = (len(s) - 1) * p
        lo = int(math.floor(k))
        if it.t == D:
            hi = min(lo + 1, len(s) - 1)
            return s[lo] + (s[hi] - s[lo]) * (k - lo)
        return s[lo]

    def eq(got, want):
        return close(got, want, 1e-12, 1e-12) if it.t == D else keyeq(it)(got, want)
    check_call(d, "a.ntile", [A(it.t), D], it.t, [a, p], ref, eq=eq)


def median_case(d):
    it = item(d)
    a = arr(d, it, 7)
    check_call(d, "a.median", [A(it.t)], it.t, [a], median(it), eq=keyeq(it))


def setop(fcn, f, quick=250, ret=None, distinct=False):
    def make(d, it):
        r = ret or A(it.t)

        def eq(got, want):
            if ret:
                return got is want
            if distinct and any(x in got[:i] for i, x in enumerate(got)):
                return False
            return seteq(got, want)
        return [A(it.t), A(it.t)], r, [arr(d, it, 4), arr(d, it, 4)], f, {"eq": eq}
    return sub(fcn, make, quick)


def distinct(a):
    out = []
    for x in a:
        if x not in out:
            out.append(x)
    return out


def shuffle_case(d):
    it = item(d)
    a = arr(d, it)
    d.note(a)
    d.sut()
    got = libcall("a.shuffle", [A(it.t)], A(it.t))(a)
    if got[0] != "ok" or stable_sorted(got[1], repr) != stable_sorted(a, repr):
        raise Violation("a.shuffle(%r) gave %r" % (a, got))
    d.nontrivial(repr(a))


def windows(a, n, s):
    if n < 1:
        raise Err(15770)
    if s < 1:
        raise Err(15771)
    out, k = [], 0
    while k + n <= len(a):
        out.append(a[k:k + n])
        k += s
    return out


def combos(a, n):
    if n < 1:
        raise Err(15780)

    def rec(s, n):
        if n == 0:
            return [[]]
        return [[a[k]] + r for k in range(s, len(a)) for r in rec(k + 1, n - 1)]
    return rec(0, n)


def perms(a):
    if not a:
        return [[]]
    return [[a[k]] + r for k in range(len(a)) for r in perms(a[:k] + a[k + 1:])]


def same_multiset(got, want):
    return sorted(map(repr, got)) == sorted(map(repr, want))


SUBS = [
    unary("a.len", lambda it: len, lambda it: I),
    sub("a.subseq", lambda d, it: ([A(it.t), I, I], A(it.t), [arr(d, it), ix(d), ix(d)], subseq), 300),
    unary("a.head", lambda it: nonempty(15020, lambda a: a[0]), lambda it: it.t),
    unary("a.tail", lambda it: nonempty(15030, lambda a: a[1:])),
    unary("a.last", lambda it: nonempty(15040, lambda a: a[len(a) - 1]), lambda it: it.t),
    unary("a.init", lambda it: nonempty(15050, lambda a: a[:len(a) - 1])),
    sub("a.subseqto", lambda d, it: ([A(it.t), I, I, A(it.t)], A(it.t), [arr(d, it), ix(d), ix(d), arr(d, it, 3)], subseqto), 300),
    search("a.contains", lambda h, n: bool(occurrences(h, n)), lambda h, x: any(y == x for y in h), B, True),
    search("a.count", lambda h, n: len(occurrences(h, n)) if n else 0, lambda h, x: sum(1 for y in h if y == x), I, True),
    search("a.index", lambda h, n: (occurrences(h, n) + [-1])[0], lambda h, x: next((i for i, y in enumerate(h) if y == x), -1), I, True),
    search("a.rindex", lambda h, n: ([-1] + occurrences(h, n))[-1], lambda h, x: max([-1] + [i for i, y in enumerate(h) if y == x]), I, True),
    search("a.startswith", lambda h, n: 0 in occurrences(h, n), lambda h, x: bool(h) and h[0] == x, B, False),
    search("a.endswith", lambda h, n: len(h) - len(n) in occurrences(h, n), lambda h, x: bool(h) and h[len(h) - 1] == x, B, False),
    sub("a.concat", lambda d, it: ([A(it.t), A(it.t)], A(it.t), [arr(d, it), arr(d, it)], lambda a, b: [x for c in (a, b) for x in c])),
    sub("a.append", lambda d, it: ([A(it.t), it.t], A(it.t), [arr(d, it), it.gen(d)], lambda a, x: a + [x])),
    sub("a.cycle", lambda d, it: ([A(it.t), it.t, I], A(it.t), [arr(d, it), it.gen(d), ix(d)], cycle)),
    sub("a.insert", lambda d, it: ([A(it.t), I, it.t], A(it.t), [arr(d, it), ix(d), it.gen(d)], insert), 300),
    sub("a.replace", lambda d, it: ([A(it.t), I, it.t], A(it.t), [arr(d, it), ix(d), it.gen(d)], replace), 300),
    sub("a.remove", lambda d, it: ([A(it.t), I], A(it.t), [arr(d, it), ix(d)], remove1) if d.bool() else
        ([A(it.t), I, I], A(it.t), [arr(d, it), ix(d), ix(d)], remove2), 400),
    sub("a.rotate", lambda d, it: ([A(it.t), I], A(it.t), [arr(d, it), ix(d)], rotate)),
    unary("a.reverse", lambda it: lambda a: [a[len(a) - 1 - k] for k in range(len(a))]),
    Sub("a.shuffle", shuffle_case, 200),
] + order_family() + [
    numeric("a.sum", asum), numeric("a.product", aprod),
    dbl("a.lnsum", lnsum), dbl("a.mean", mean), dbl("a.geomean", geomean), dbl("a.logsumexp", logsumexp),
    Sub("a.median", median_case, 300), Sub("a.mode", mode_case, 400), Sub("a.ntile", ntile_case, 500),
    unary("a.distinct", lambda it: distinct, eq=lambda got, want: seteq(got, want) and len(got) == len(want), quick=300),
    setop("a.seteq", seteq, ret=B), setop("a.union", lambda a, b: a + b, distinct=True),
    setop("a.intersection", lambda a, b: [x for x in a if x in b]), setop("a.diff", lambda a, b: [x for x in a if x not in b]),
    setop("a.symdiff", lambda a, b: [x for x in a if x not in b] + [x for x in b if x not in a]),
    setop("a.subset", lambda a, b: all(x in b for x in a), ret=B), setop("a.disjoint", lambda a, b: not any(x in b for x in a), ret=B),
    sub("a.slidingWindow", lambda d, it: ([A(it.t), I, I], A(A(it.t)), [arr(d, it, 8), d.below(5), d.below(5)], windows), 300),
    sub("a.combinations", lambda d, it: ([A(it.t), I], A(A(it.t)), [arr(d, it, 5), d.smallint(4)], combos, {"eq": same_multiset}), 250),
    sub("a.permutations", lambda d, it: ([A(it.t)], A(A(it.t)), [arr(d, it, 4)], perms, {"eq": same_multiset}), 250),
    sub("a.flatten", lambda d, it: ([A(A(it.t))], A(it.t), [d.list(lambda: arr(d, it, 3), 0, 4)], lambda a: [x for b in a for x in b]), 250),
]
