"""C22: regular-expression functions against an enumerating reference matcher."""
import locale

from pbt import Violation, close, show
from runner import Sub
from engines import Err, check_call, compare_outcomes, libcall, norm, refoutcome
from libfn import V, fnsub

RULE = ("one generated (pattern, haystack) pair per case; patterns are generated as syntax trees (literals, escapes, any-character, bracket lists, ranges and "
        "classes, groups, alternation, * + ? and {m,n} repetition, anchors, back-references) and haystacks are drawn from the pattern's language, "
        "surrounded by noise, or at random; strings and byte sequences; distinct = distinct (function, pattern, haystack)")
ASSUMPTIONS = ["POSIX extended syntax: the overall match is the leftmost, then the longest; any assignment of groups consistent with that match is accepted",
               "\".\" does not match the null byte",
               "groups that take no part in the match are left out of the result",
               "successive matches do not overlap; after an empty match the search resumes one character later; no match starts at the end of a non-empty "
               "haystack after the first",
               "re.split leaves out an empty first or last piece; splitting an empty haystack is unspecified",
               "the process runs in a UTF-8 locale (the C library reads text bytewise in any other); character classes are only applied to ASCII",
               "byte sequences are ASCII plus the null byte"]



locale.setlocale(locale.LC_CTYPE, "C.UTF-8")


# ---------------------------------------------------------------- patterns

class Node(object):
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


ASCII = "abc.1 "
META = set("^.[]$()|*+?{}\\")


def lit(c):
    return ("\\" + c) if c in META else c


CLASSES = {"digit": lambda c: "0" <= c <= "9", "alpha": lambda c: c.isalpha() and c < "\x7f", "upper": lambda c: "A" <= c <= "Z",
           "lower": lambda c: "a" <= c <= "z", "alnum": lambda c: c < "\x7f" and c.isalnum(), "space": lambda c: c in " \t\n\r\x0b\x0c"}


class Gen(object):
    def __init__(self, d, wide, backrefs):
        self.d, self.wide, self.groups = d, wide, 0
        self.backrefs = backrefs

    def atom(self, depth):
        d = self.d
        k = d.weighted([(6, 0), (2, 1), (3, 2), (4 if depth > 0 else 0, 3), (1, 4)])
        if k == 0:
            c = d.choice(ASCII)
            return Node("lit", c), lit(c), True
        if k == 1:
            return Node("any"), ".", True
        if k == 2:
            return self.bracket()
        if k == 3:
            self.groups += 1
            g = self.groups
            n, s = self.alt(depth - 1)
            return Node("group", g, n), "(" + s + ")", True
        if self.wide:
            c = d.choice(u"\u00e9\u65e5\U0001F600")
            if d.bool():
                self.groups += 1
                return Node("group", self.groups, Node("lit", c)), "(" + c + ")", True
            return Node("lit", c), c, True
        return Node("lit", "b"), "b", True

    def bracket(self):
        d = self.d
        parts, tests = [], []
        for _ in range(d.int(1, 3)):
            k = d.below(2 if self.wide else 3)
            if k == 0:
                c = d.choice("abc.1x*(" + (u"\u00e9\u65e5\U0001F600" if self.wide else ""))
                parts.append(c)
                tests.append(lambda x, c=c: x == c)
            elif k == 1:
                lo = d.choice("ab0")
                hi = chr(ord(lo) + d.below(3))
                parts.append(lo + "-" + hi)
                tests.append(lambda x, lo=lo, hi=hi: lo <= x <= hi)
            else:
                n = d.choice(sorted(CLASSES))
                parts.append("[:%s:]" % n)
                tests.append(CLASSES[n])
        neg = d.chance(1, 3)
        body = "".join(parts)
        f = (lambda x: not any(t(x) for t in tests)) if neg else (lambda x: any(t(x) for t in tests))
        return Node("set", f), "[" + ("^" if neg else "") + body + "]", True

    def piece(self, depth):
        d = self.d
        n, s, quant = self.atom(depth)
        if quant and d.chance(2, 5):
            k = d.below(7)
            lo, hi, q = [(0, None, "*"), (1, None, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 2, "{1,2}"), (0, 2, "{0,2}"), (1, None, "{1,}")][k]
            return Node("rep", lo, hi, n), s + q
        return n, s

    def concat(self, depth):
        ps = [self.piece(depth) for _ in range(self.d.int(1, 3))]
        return Node("cat", [p[0] for p in ps]), "".join(p[1] for p in ps)

    def alt(self, depth):
        bs = [self.concat(depth) for _ in range(self.d.weighted([(3, 1), (2, 2), (1, 3)]))]
        if len(bs) == 1:
            return bs[0]
        return Node("alt", [b[0] for b in bs]), "|".join(b[1] for b in bs)

    def top(self):
        d = self.d
        if self.backrefs and d.chance(1, 12):
            self.groups = 1
            n, s = self.lits()
            m, t = self.lits()
            u, v = self.lits()
            return Node("cat", [Node("group", 1, Node("alt", [n, m])), u, Node("ref", 1)]), "(%s|%s)%s\\1" % (s, t, v)
        n, s = self.alt(2)
        if d.chance(1, 7):
            if d.bool():
                n, s = Node("cat", [Node("group", self.groups + 1, n)]), "(" + s + ")"
                n = renumber(n, self.groups + 1)
                self.groups += 1
            if n.kind != "alt":
                k = d.below(3)
                if k != 1:
                    n, s = Node("cat", [Node("bol"), n]), "^" + s
                if k != 0:
                    n, s = Node("cat", [n, Node("eol")]), s + "$"
        return n, s

    def lits(self):
        cs = [self.d.choice("abc1") for _ in range(self.d.int(1, 2))]
        return Node("cat", [Node("lit", c) for c in cs]), "".join(cs)


def renumber(n, last):
    """the group numbered `last` now comes first"""
    if n.kind == "group":
        return Node("group", 1 if n.a[0] == last else n.a[0] + 1, renumber(n.a[1], last))
    if n.kind in ("cat", "alt"):
        return Node(n.kind, [renumber(x, last) for x in n.a[0]])
    if n.kind == "rep":
        return Node("rep", n.a[0], n.a[1], renumber(n.a[2], last))
    return n


def produce(d, n, caps):
    """a string of the pattern's language"""
    k = n.kind
    if k == "lit":
        return n.a[0]
    if k == "any":
        return d.choice("abcx\n")
    if k == "set":
        for _ in range(12):
            c = d.choice("abc.1xAZ0*( \n9z")
            if n.a[0](c):
                return c
        return "b"
    if k == "group":
        s = produce(d, n.a[1], caps)
        caps[n.a[0]] = s
        return s
    if k == "ref":
        return caps.get(n.a[0], "")
    if k == "cat":
        return "".join(produce(d, x, caps) for x in n.a[0])
    if k == "alt":
        return produce(d, d.choice(n.a[0]), caps)
    if k == "rep":
        lo, hi = n.a[0], n.a[1]
        return "".join(produce(d, n.a[2], caps) for _ in range(d.int(lo, hi if hi is not None else lo + 2)))
    return ""


class Budget(Exception):
    pass


class Matcher(object):
    """all ways a pattern matches at a position: set of (end, ((group, extent), ...))"""
    def __init__(self, hay):
        self.hay, self.steps = hay, 0
        self.memo = {}

    def run(self, n, i, caps, forget):
        self.steps += 1
        if self.steps > 60000:
            raise Budget()
        key = (id(n), i, caps, forget)
        if key in self.memo:
            return self.memo[key]
        out = self._run(n, i, caps, forget)
        self.memo[key] = out
        return out

    def _run(self, n, i, caps, forget):
        k, hay = n.kind, self.hay
        if k == "lit":
            return frozenset([(i + 1, caps)]) if i < len(hay) and hay[i] == n.a[0] else frozenset()
        if k == "any":
            return frozenset([(i + 1, caps)]) if i < len(hay) and hay[i] != "\0" else frozenset()
        if k == "set":
            return frozenset([(i + 1, caps)]) if i < len(hay) and n.a[0](hay[i]) else frozenset()
        if k == "bol":
            return frozenset([(i, caps)]) if i == 0 else frozenset()
        if k == "eol":
            return frozenset([(i, caps)]) if i == len(hay) else frozenset()
        if k == "group":
            return frozenset((j, setcap(c, n.a[0], (i, j))) for j, c in self.run(n.a[1], i, caps, forget))
        if k == "ref":
            e = dict(caps).get(n.a[0])
            if e is None:
                return frozenset()
            w = hay[e[0]:e[1]]
            return frozenset([(i + len(w), caps)]) if hay[i:i + len(w)] == w else frozenset()
        if k == "cat":
            cur = frozenset([(i, caps)])
            for x in n.a[0]:
                cur = frozenset(r for j, c in cur for r in self.run(x, j, c, forget))
            return cur
        if k == "alt":
            return frozenset(r for x in n.a[0] for r in self.run(x, i, caps, forget))
        lo, hi, x = n.a
        out = set()
        cur = {(i, caps)}
        inner = groupsof(x)
        count = 0
        while cur and (hi is None or count <= hi):
            if count >= lo:
                out |= cur
            if hi is not None and count == hi:
                break
            nxt = set()
            for j, c in cur:
                c2 = tuple(p for p in c if p[0] not in inner) if forget else c
                for j2, c3 in self.run(x, j, c2, forget):
                    if j2 > j or count < lo:
                        nxt.add((j2, c3))
                    else:
                        out.add((j2, c3))      # a last, empty iteration
            if nxt <= cur and count >= lo:
                break
            cur = nxt
            count += 1
        return frozenset(out)


def groupsof(n):
    if n.kind == "group":
        return {n.a[0]} | groupsof(n.a[1])
    if n.kind in ("cat", "alt"):
        return set().union(*[groupsof(x) for x in n.a[0]]) if n.a[0] else set()
    if n.kind == "rep":
        return groupsof(n.a[2])
    return set()


def setcap(caps, g, e):
    return tuple(sorted([p for p in caps if p[0] != g] + [(g, e)]))


class Match(object):
    def __init__(self, beg, end, options):
        self.beg, self.end, self.options = beg, end, options       # options: set of tuples of extents of groups that took part


class Pattern(object):
    def __init__(self, node):
        self.node = node

    def search(self, hay, start):
        for i in range(start, len(hay) + 1):
            ends = set()
            m = Matcher(hay)
            for j, c in m.run(self.node, i, (), False):
                ends.add((j, c))
            m = Matcher(hay)
            for j, c in m.run(self.node, i, (), True):
                ends.add((j, c))
            if ends:
                e = max(j for j, _ in ends)
                return Match(i, e, {((i, e),) + tuple(x[1] for x in c) for j, c in ends if j == e})
        return None

    def all(self, hay):
        out, start = [], 0
        while start == 0 or start < len(hay):
            m = self.search(hay, start)
            if m is None:
                break
            out.append(m)
            start = m.end if m.end > m.beg else m.end + 1
        return out


# ---------------------------------------------------------------- cases

BAD = ["(a", "[a", "a{2,1}", "[[:bogus:]]", "a\\", "[b-a]", "(a|b", "x[", "(", "a{1"]


def gencase(d):
    kind = d.weighted([(5, "ascii"), (2, "wide"), (3, "bytes")])
    g = Gen(d, kind == "wide", True)
    node, text = g.top()
    noise = "abc.1x " + (u"\u00e9\u65e5\U0001F600" if kind == "wide" else "\n")
    k = d.weighted([(6, 0), (2, 1), (1, 2)])
    if k == 0:
        parts = []
        for _ in range(d.int(1, 3)):
            parts.append(d.str(noise, 0, 2))
            parts.append(produce(d, node, {}))
        if d.bool():
            parts.append(d.str(noise, 0, 2))
        hay = "".join(parts)
        if d.chance(1, 4) and hay:
            i = d.below(len(hay))
            hay = hay[:i] + d.str(noise, 0, 1) + hay[i + 1:]
    elif k == 1:
        hay = d.str(noise, 0, 8)
    else:
        hay = d.str("abc1", 0, 12)
    hay = hay[:14]
    if kind == "bytes" and d.chance(1, 3) and hay:
        i = d.below(len(hay))
        hay = hay[:i] + "\0" + hay[i + 1:]
    return kind, node, text, hay


def to_type(kind):
    if kind == "bytes":
        return "bytes", lambda s: s.encode("latin-1")
    return "string", lambda s: s


def eqset(options):
    def eq(got, want):
        return norm(got) in [norm(x) for x in options]
    return eq


FUNCS = ["index", "contains", "count", "rindex", "groups", "indexall", "findall", "findfirst", "findgroupsfirst", "findgroupsall", "groupsall",
         "replacefirst", "replacelast", "replaceall", "split"]
CODES = {"index": 35000, "contains": 35010, "count": 35020, "rindex": 35030, "groups": 35040, "indexall": 35050, "findall": 35060, "findfirst": 35070,
         "findgroupsfirst": 35080, "findgroupsall": 35090, "groupsall": 35100, "replacefirst": 35110, "replacelast": 35120, "split": 35130,
         "replaceall": 35140}
II = {"type": "array", "items": "int"}


def arr(t):
    return {"type": "array", "items": t}


def rettype(f, t):
    return {"index": II, "rindex": II, "contains": "boolean", "count": "int", "groups": arr(II), "indexall": arr(II), "findall": arr(t),
            "findfirst": [t, "null"], "findgroupsfirst": arr(t), "findgroupsall": arr(arr(t)), "groupsall": arr(arr(II)), "replacefirst": t,
            "replacelast": t, "replaceall": t, "split": arr(t)}[f]


def product(options, cap=4000):
    out = [[]]
    for o in options:
        out = [p + [x] for p in out for x in o]
        if len(out) > cap:
            raise Budget()
    return out


def expected(f, p, hay, t, repl):
    """list of acceptable results"""
    ms = p.all(hay)
    if f == "contains":
        return [bool(ms)]
    if f == "count":
        return [len(ms)]
    if f == "index":
        return [[ms[0].beg, ms[0].end] if ms else []]
    if f == "rindex":
        return [[ms[-1].beg, ms[-1].end] if ms else []]
    if f == "indexall":
        return [[[m.beg, m.end] for m in ms]]
    if f == "findall":
        return [[hay[m.beg:m.end] for m in ms]]
    if f == "findfirst":
        return [{t: hay[ms[0].beg:ms[0].end]} if ms else None]
    if f == "groups":
        return [[list(e) for e in o] for o in ms[0].options] if ms else [[]]
    if f == "findgroupsfirst":
        return [[hay[a:b] for a, b in o] for o in ms[0].options] if ms else [[]]
    if f == "groupsall":
        return product([[[list(e) for e in o] for o in m.options] for m in ms])
    if f == "findgroupsall":
        return product([[[hay[a:b] for a, b in o] for o in m.options] for m in ms])
    if f in ("replacefirst", "replacelast", "replaceall"):
        use = ms if f == "replaceall" else ms[:1] if f == "replacefirst" else ms[-1:]
        out, at = [], 0
        for m in use:
            out.append(hay[at:m.beg] + repl)
            at = m.end
        return ["".join(out) + hay[at:]]
    if f == "split":
        if not ms:
            return [[hay]]
        out, at = [], 0
        for m in ms:
            out.append(hay[at:m.beg])
            at = m.end
        out.append(hay[at:])
        if out and out[-1] == "":
            out = out[:-1]
        if out and out[0] == "":
            out = out[1:]
        return [out]


def call(d, f, kind, text, hay, repl, want):
    t, cv = to_type(kind)
    args = [cv(hay), cv(text)] + ([cv(repl)] if f.startswith("replace") else [])
    d.note({"fcn": "re." + f, "args": args})
    d.sut()
    got = libcall("re." + f, [t] * len(args), rettype(f, t))(*args)
    if want[0] == "err":
        compare_outcomes("re." + f, args, got, want)
    elif got[0] != "ok" or norm(got[1]) not in [norm(x) for x in want[1]]:
        raise Violation("re.%s%s: got %s, expected %s" % (f, show(args), show(got), " or ".join(show(x) for x in want[1][:4])))
    d.nontrivial(repr((f, args)))
    return got


def mkcase(fs):
    def case(d):
        f = d.choice(fs)
        if d.chance(1, 25):
            kind = d.choice(["ascii", "bytes"])
            call(d, f, kind, d.choice(BAD), d.str("ab(1", 0, 5), "r", ("err", CODES[f]))
            d.label("bad pattern")
            return
        kind, node, text, hay = gencase(d)
        if f == "split" and hay == "":
            hay = "a"
        repl = d.str("xy\\1&" if kind != "wide" else u"x\u65e5", 0, 3)
        t, _ = to_type(kind)
        try:
            want = expected(f, Pattern(node), hay, t, repl)
        except Budget:
            d.label("skipped: too many parses")
            return
        call(d, f, kind, text, hay, repl, ("ok", want))
        d.label(kind)
        d.label("match" if want[0] not in ([], None, False, 0) and want[0] != hay and want[0] != [hay] else "no match")
    return case


def consistent(d):
    """relations between the functions that need no reference matcher: larger haystacks"""
    kind, node, text, hay = gencase(d)
    hay = "".join([hay] + [d.choice([hay, produce(d, node, {}), d.str("abc1. x", 0, 4)]) for _ in range(d.int(1, 4))])
    if hay == "":
        hay = "a"
    t, cv = to_type(kind)
    a = [cv(hay), cv(text)]
    d.note({"haystack": hay, "pattern": text, "kind": kind})
    d.sut()

    def go(f, *more):
        r = libcall("re." + f, [t] * (2 + len(more)), rettype(f, t))(*(a + [cv(m) for m in more]))
        if r[0] != "ok":
            raise Violation("re.%s%s: %s" % (f, show(a), r))
        return norm(r[1])
    al = go("indexall")
    r = {f: go(f) for f in ("index", "rindex", "contains", "count", "groups", "groupsall", "findall", "findfirst", "findgroupsall", "findgroupsfirst", "split")}
    r["ra"], r["rf"], r["rl"] = go("replaceall", "<>"), go("replacefirst", "<>"), go("replacelast", "<>")

    def sub(ms):
        out, at = "", 0
        for b, e in ms:
            out += hay[at:b] + "<>"
            at = e
        return out + hay[at:]
    checks = [("index", al[0] if al else []), ("rindex", al[-1] if al else []), ("contains", bool(al)), ("count", len(al)),
              ("findall", [hay[b:e] for b, e in al]), ("findfirst", {t: hay[al[0][0]:al[0][1]]} if al else None),
              ("groups", r["groupsall"][0] if al else []), ("findgroupsfirst", r["findgroupsall"][0] if al else []),
              ("findgroupsall", [[hay[b:e] for b, e in g] for g in r["groupsall"]]), ("ra", sub(al)), ("rf", sub(al[:1])), ("rl", sub(al[-1:]))]
    for k, want in checks:
        if r[k] != want:
            raise Violation("re.%s on haystack %s pattern %s gives %s, but the matches %s imply %s" % (k, show(hay), show(text), show(r[k]), al, show(want)))
    if [g[0] for g in r["groupsall"]] != al:
        raise Violation("re.groupsall %s disagrees with re.indexall %s on %s %s" % (r["groupsall"], al, show(hay), show(text)))
    prev = -1
    for b, e in al:
        if not (0 <= b <= e <= len(hay)) or b < prev:
            raise Violation("re.indexall %s on %s (length %s)" % (al, show(hay), len(hay)))
        prev = max(e, b + 1)
    d.nontrivial(repr((hay, text, kind)))
    d.label("%d matches" % min(len(al), 3))


SUBS = [Sub("re." + f, mkcase([f]), 300, 12000) for f in FUNCS] + [Sub("consistent", consistent, 500, 20000)]
