"""C44: the inspector parses commands faithfully and edits only what matches."""
import builtins
import contextlib
import copy
import io
import json
import os
import re
import shutil
import atexit
import tempfile

_home = os.environ.get("HOME")
HOME = tempfile.mkdtemp(prefix="inspector")
atexit.register(shutil.rmtree, HOME, True)
os.mkdir(os.path.join(HOME, ".pfa"))
os.environ["HOME"] = HOME       # history files go there

from pbt import Discard, Violation, show
from runner import Sub

import titus.inspector.parser as ip
import titus.producer.tools as t
from titus.inspector.defs import InspectorError, Model
from titus.inspector.jsongadget import JsonGadget
from titus.inspector.main import InspectorMode
from titus.inspector.pfagadget import PFAGadget

RULE = ("generated command lines (words, strings, numbers, paths, switches, options, extractions, JSON values and patterns, with free spacing) parsed and compared with what was written; the same lines damaged at random; "
        "look, count, index, find and change on generated documents, paths, patterns and answers, compared with a naive tree walk; and sessions of load, rename, drop, save, change, externalize and internalize on files of a scratch directory against a model; "
        "non-trivial when something was matched, changed, refused or nested; distinct = distinct command lines and documents")
ASSUMPTIONS = ["matches inside of a match come before it, keys are sorted", "parentheses are numbered in the order in which they close (nested ones are not generated)", "documents have no \"@\" keys here (C43 covers them) and are shown in less than 100 lines",
               "regular expressions without the flag L (Python allows it for bytes only)"]
FACTOR = {"quick": 5, "thorough": 1}

WORDS = ["x", "abc", "a.b", "T1_x", "as", "to", "help", "null", "true", "false", "e5", "json", "Z_9.q", "inf"]
STRINGS = ["", "a b", "x", "\"", "\\", "tab\t", "[1]", "{", "\u00e9\u4e2d", "\u0001", "...", "_", "a/b", "null", "'", "#", "?/x/"]
NUMBERS = ["0", "1", "-1", "12", "007", "-0", "2.5", "-2.5", ".5", "3.", "-.25", "1e3", "2E-2", "-1.5e+2", "3.e1", "123456789012345678901234567890"]
PATHS = ["a/b", "/tmp/x", "./a.pfa", "~/q-1", "../a+b/", "a$b/%c", "dir/_x", "a//b"]
SWITCHES = ["-l", "-la", "-x1"]
FINDS = [("a", None), ("a(b?)", "z\\1"), ("^x[0-9]$", "y"), ("(in)put", "\\1"), ("A", "q"), ("a\\.b", "."), ("\\w+", ""), ("\\/", "-")]
KEYS = ["a", "b", "c", "type", "null", "a b", "true", "do"]


class Writer(object):
    def __init__(self, d):
        self.d = d

    def sp(self):
        return self.d.choice(["", "", " ", "  ", "\t"])

    def number(self):
        text = self.d.choice(NUMBERS)
        return text, (("int", int(text)) if re.match(r"^-?[0-9]+$", text) else ("float", float(text)))

    def string(self, s):
        return json.dumps(s, ensure_ascii=not self.d.chance(1, 2)), ("string", s)

    def word(self):
        w = self.d.choice(WORDS)
        return w, ("word", w)

    def name(self):
        """an index or key"""
        return self.word() if not self.d.chance(1, 3) else self.string(self.d.choice(STRINGS))

    def regex(self):
        d = self.d
        find, to = d.choice(FINDS)
        flags = d.choice(["", "", "i", "ms", "IU", "x"])
        if to is None or d.chance(1, 2):
            return "?/%s/%s" % (find, flags), ("regex", find, None, flags or None)
        return "@/%s/%s/%s" % (find, to, flags), ("regex", find, to, flags or None)

    def seq(self, items):
        d = self.d
        return ",".join(self.sp() + i + self.sp() for i in items) + ("," + self.sp() if items and d.chance(1, 6) else "")

    def value(self, depth=0):
        d = self.d
        k = d.below(13 if depth < 3 else 8)
        if k < 2:
            return self.word()
        if k < 4:
            return self.number()
        if k == 4:
            return self.string(d.choice(STRINGS))
        if k == 5:
            return ("_", ("any",))
        if k == 6:
            return self.regex()
        if k == 7:
            return self.range()
        if k == 8:
            a, b = self.number(), self.number()
            return a[0] + self.sp() + "+-" + " " + b[0], ("approx", a[1][1], b[1][1])
        if k == 9:
            ors = []
            texts = []
            for _ in range(d.int(1, 2)):
                ands = [self.value(depth + 1) for _ in range(d.int(1, 2))]
                texts.append(("%s&%s" % (self.sp(), self.sp())).join(x for x, _ in ands))
                ors.append(tuple(y for _, y in ands))
            return "(%s%s%s)" % (self.sp(), ("%s|%s" % (self.sp(), self.sp())).join(texts), self.sp()), ("group", tuple(ors))
        if k < 12 and d.chance(1, 2):
            items = [self.value(depth + 1) for _ in range(d.int(0, 3))]
            e = d.choice([None, None, "start", "end"])
            if e == "end" and not items:
                e = "start"            # both ends of nothing
            text = self.seq([x for x, _ in items])
            if e == "start":
                text = "..." + d.choice([" ", ", " if items else " "]) + text
            elif e == "end":
                text = text + " ..."
            return "[" + self.sp() + text + "]", ("array", tuple(y for _, y in items), e)
        pairs = [(self.name(), self.value(depth + 1)) for _ in range(d.int(0, 3))]
        e = d.choice([None, None, "start", "end"])
        text = self.seq([k[0] + self.sp() + ":" + self.sp() + v[0] for k, v in pairs])
        if e == "start":
            text = "..." + d.choice([" ", ", " if pairs else " "]) + text
        elif e == "end":
            text = text + " ..."
        return "{" + self.sp() + text + "}", ("object", tuple((k[1], v[1]) for k, v in pairs), e is not None)

    def range(self):
        d = self.d
        k = d.below(3)
        if k == 0:
            return "#", ("range", None, None)
        b = self.number()
        if k == 1:
            op = d.choice(["<", "<=", ">", ">="])
            return "#" + self.sp() + op + self.sp() + b[0], ("range", op, b[1][1])
        a = self.number()
        op1, op2 = d.choice(["<", "<="]), d.choice(["<", "<="])
        return a[0] + " " + op1 + self.sp() + "#" + self.sp() + op2 + self.sp() + b[0], ("between", a[1][1], op1, op2, b[1][1])

    def extract(self):
        d = self.d
        items = [self.number() if d.chance(1, 3) else self.name() for _ in range(d.int(1, 3))]
        items = [x if x[1][0] != "float" else ("4", ("int", 4)) for x in items]
        w = d.choice(WORDS)
        return w + "[" + self.seq([x for x, _ in items]) + "]", ("extract", w, tuple(y for _, y in items))

    def argument(self):
        d = self.d
        k = d.below(8)
        if k < 4:
            return self.value()
        if k == 4:
            return self.extract()
        if k == 5:
            w, v = d.choice(WORDS), self.value()
            return w + self.sp() + "=" + self.sp() + v[0], ("option", w, v[1])
        if k == 6:
            p = d.choice(PATHS)
            return p, ("path", p)
        s = d.choice(SWITCHES)
        return s, ("switch", s)

    def line(self):
        args = [self.argument() for _ in range(self.d.int(1, 4))]
        return self.sp() + self.d.choice([" ", "  ", "\t"]).join(x for x, _ in args) + self.sp(), [y for _, y in args]


def form(x):
    """an AST as the writer describes it"""
    c = type(x)
    if c is ip.Word:
        return ("word", x.text)
    if c is ip.String:
        return ("string", x.text) if not x.partial else ("partial",)
    if c is ip.Integer:
        return ("int", x.num)
    if c is ip.Floating:
        return ("float", x.num)
    if c is ip.Underscore:
        return ("any",)
    if c is ip.Regex:
        return ("regex", x.find, x.to, x.flags)
    if c is ip.Range:
        return ("range", x.operator, x.comparator)
    if c is ip.AndChain and len(x.chain) == 2 and all(type(y) is ip.Range for y in x.chain):
        return ("between", x.chain[0].comparator, {">": "<", ">=": "<="}.get(x.chain[0].operator), x.chain[1].operator, x.chain[1].comparator)
    if c is ip.Approx:
        return ("approx", x.central, x.error)
    if c is ip.Group:
        ors = x.item.chain if type(x.item) is ip.OrChain else [x.item]
        return ("group", tuple(tuple(form(z) for z in y.chain) for y in ors))
    if c is ip.JsonArray:
        return ("array", tuple(form(y) for y in x.items), "start" if x.startEllipsis else "end" if x.endEllipsis else None)
    if c is ip.JsonObject:
        return ("object", tuple((form(p.key), form(p.value)) for p in x.pairs), x.ellipsis)
    if c is ip.Extract:
        return ("extract", x.text, tuple(form(y) for y in x.items))
    if c is ip.Option:
        return ("option", x.word.text, form(x.value))
    if c is ip.FilePath:
        return ("path", x.text)
    if c is ip.Switches:
        return ("switch", x.text)
    return ("?", repr(x))


def plain(y):
    """the JSON value, Discard if it isn't one"""
    k = y[0]
    if k == "word":
        return {"null": None, "true": True, "false": False}.get(y[1], y[1])
    if k in ("string", "int", "float"):
        return y[1]
    if k == "array" and y[2] is None:
        return [plain(z) for z in y[1]]
    if k == "object" and not y[2]:
        return {a[1]: plain(b) for a, b in y[1]}
    raise Discard()


def lines(d):
    text, want = Writer(d).line()
    d.note(text)
    d.sut()
    got = ip.parser.parse(text)
    if [form(x) for x in got] != want or repr([form(x) for x in got]) != repr(want):
        raise Violation("%r is parsed as %s, not %s" % (text, [form(x) for x in got], want))
    for x, y in zip(got, want):
        x.checkPartial(text)
        if not (x == x) or x == ip.Word("different") or x == 3:
            raise Violation("%r can't be compared" % x)
        str(x), repr(x)
        try:
            v = plain(y)
        except Discard:
            continue
        if show(x.value()) != show(v) or show(x.replacement()) != show(v):
            raise Violation("%s has the value %s, replacement %s" % (text, show(x.value()), show(x.replacement())))
    if any(len(y) > 2 for y in want):
        d.nontrivial(text)


class Session(object):
    """an inspector whose output is captured and whose questions are answered"""

    def __init__(self):
        with contextlib.redirect_stdout(io.StringIO()):
            self.mode = InspectorMode([], [JsonGadget, PFAGadget])
        # a pager that keeps what it gets
        self.bin = tempfile.mkdtemp(prefix="pager", dir=HOME)
        atexit.register(shutil.rmtree, self.bin, True)
        self.paged = os.path.join(self.bin, "paged")
        with open(os.path.join(self.bin, "less"), "w") as fp:
            fp.write("#!/bin/sh\nexec /bin/cat > '%s'\n" % self.paged)
        os.chmod(os.path.join(self.bin, "less"), 0o755)
        os.environ["PATH"] = self.bin + os.pathsep + os.environ.get("PATH", "/bin:/usr/bin")

    def run(self, text, answers=()):
        """output, questions asked; InspectorError as None"""
        answers = list(answers)
        asked = []

        def ask(prompt=""):
            asked.append(prompt)
            if not answers:
                raise KeyboardInterrupt
            return answers.pop(0)
        out = io.StringIO()
        keep = builtins.input
        builtins.input = ask
        try:
            with contextlib.redirect_stdout(out):
                self.mode.action(text)
        except InspectorError as err:
            return None, str(err)
        except KeyboardInterrupt:
            raise Violation("%s asks more often than answered" % text)
        finally:
            builtins.input = keep
        if os.path.exists(self.paged):
            with open(self.paged) as fp:
                out.write(fp.read())
            os.remove(self.paged)
        if answers and not all(a == "y" for a in answers):
            return out.getvalue(), "%d answers left" % len(answers)
        return out.getvalue(), asked


SESSION = []


def session():
    if not SESSION:
        SESSION.append(Session())
    SESSION[0].mode.pfaFiles.clear()
    return SESSION[0]


def malformed(d):
    s = session()
    doc = tree(d)
    s.mode.pfaFiles["x"] = Model(copy.deepcopy(doc))
    command = d.choice(["json count x ", "json index x ", "json find x ", "json look x ", "json change x ", ""])
    w = Writer(d)
    text = w.line()[0] if not d.chance(1, 4) else w.value()[0] + " to " + w.value()[0]
    for _ in range(d.int(1, 4)):
        i = d.below(len(text) + 1)
        k = d.below(4)
        if k == 0:
            text = text[:i] + text[i + 1:]
        elif k == 1:
            text = text[:i] + d.choice(list("[]{}()|&#=:,.\"\\/?@_<>+-~ ae1\u00e9'") + ["...", "+-", "@/a/\\9/", "\\x"]) + text[i:]
        elif k == 2:
            text = text[:i]
        else:
            j = d.below(len(text) + 1)
            text = text[:i] + text[min(i, j):max(i, j)] + text[i:]
    text = command + text
    d.note(text)
    d.note(doc)
    d.sut()
    try:
        args = ip.parser.parse(text)
        refused = None
    except ip.ParserError as err:
        refused = err
        if err.text != text or not 0 <= err.col <= len(text) + 1:
            raise Violation("the error for %r is about %r, column %s" % (text, err.text, err.col))
    if command == "":
        if refused:
            d.nontrivial(text)
        return
    if not refused and not command.startswith("json change") and len(args) > 2 and (args[2:3] and not text.startswith(command)):
        return
    out, why = s.run(text, ["n"] * 200)
    if refused and out is not None:
        raise Violation("%r is run although it can't be parsed" % text)
    if show(s.mode.pfaFiles["x"].obj) != show(doc):
        raise Violation("%r changes the document" % text)
    if out is None:
        d.nontrivial(text)
    d.label("refused" if out is None else "run")


# ---------------------------------------------------------------- documents and patterns

def tree(d, depth=0):
    k = d.below(9 if depth < 3 else 5)
    if depth == 0:
        k = d.int(5, 8)
    if k == 0:
        return d.choice([None, True, False])
    if k == 1:
        return d.int(-2, 3)
    if k == 2:
        return d.choice([0.5, 1.0, -2.5, 0.0])
    if k in (3, 4):
        return d.choice(["a", "ab", "input", "x1", "", "AB", "a.b", "null", "a b"])
    if k in (5, 6):
        return [tree(d, depth + 1) for _ in range(d.choice([0, 1, 2, 3, 3, 5]))]
    return {x: tree(d, depth + 1) for x in d.sample(KEYS, d.int(0, 3))}


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def subtrees(x, at=()):
    if isinstance(x, dict):
        for k in sorted(x):
            for r in subtrees(x[k], at + (k,)):
                yield r
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for r in subtrees(v, at + (i,)):
                yield r
    yield at, x


def key(k):
    return k if re.match(r"^[A-Za-z][A-Za-z0-9_.]*$", k) else json.dumps(k)


class Patterns(object):
    """text, matcher(x) -> None or (modified, groups)"""

    def __init__(self, d, like):
        self.d, self.like, self.groups = d, like, 0

    def any(self, depth=0, grouped=False):
        d = self.d
        k = d.below(12 if depth < 3 else 8)
        if k == 0:
            return "_", lambda x: (x, {})
        if k < 3:
            v, op = d.choice([-2, -1, 0, 1, 2, 0.5, -0.5]), d.choice(["<", "<=", ">", ">="])
            f = {"<": lambda x: x < v, "<=": lambda x: x <= v, ">": lambda x: x > v, ">=": lambda x: x >= v}[op]
            if d.chance(1, 4):
                return "#", lambda x: (x, {}) if isnum(x) else None
            if d.chance(1, 3):
                lo, op2 = v - d.choice([0, 1, 2]), d.choice(["<", "<="])
                g = (lambda x: lo < x) if op2 == "<" else (lambda x: lo <= x)
                op, f = d.choice([("<", lambda x: x < v), ("<=", lambda x: x <= v)])
                return "%r %s # %s %r" % (lo, op2, op, v), lambda x: (x, {}) if isnum(x) and f(x) and g(x) else None
            return "# %s %r" % (op, v), lambda x: (x, {}) if isnum(x) and f(x) else None
        if k == 3:
            c, e = d.int(-2, 3), d.choice([0.5, 1, 0])
            return "%r +- %r" % (c, e), lambda x: (x, {}) if isnum(x) and abs(x - c) <= e else None
        if k == 4:
            find, to = d.choice([f for f in FINDS if f[0] != "\\/"])
            flags = d.choice(["", "", "i"])
            fs = re.I if flags else 0
            if to is None or d.chance(1, 2):
                return "?/%s/%s" % (find, flags), lambda x: (x, {}) if isinstance(x, str) and re.match(find, x, fs) else None
            return "@/%s/%s/%s" % (find, to, flags), lambda x: (re.sub(find, to, x, flags=fs), {}) if isinstance(x, str) and re.match(find, x, fs) else None
        if k < 8:
            return self.literal(d.choice([x for _, x in subtrees(self.like)]), depth, grouped)
        if k < 10 and not grouped:
            ors = [[self.any(depth + 1, True) for _ in range(d.weighted([(3, 1), (1, 2)]))] for _ in range(d.int(1, 3))]
            return self.group(ors)
        if k == 10:
            ks = d.sample(KEYS, d.int(0, 2))
            ps = [(q, self.any(depth + 1, grouped)) for q in ks]
            return self.mapping(ps, True)
        ps = [self.any(depth + 1, grouped) for _ in range(d.int(0, 2))]
        return self.sequence(ps, d.choice(["end", "start"]))

    def fits(self, v, depth=0):
        """a pattern that v matches, often with several groups"""
        d = self.d
        if isinstance(v, (dict, list)) and depth < 2 and not d.chance(1, 6):
            if isinstance(v, dict):
                ks = [k for k in v if k != "self" and not d.chance(1, 6)]
                return self.mapping([(k, self.fits(v[k], depth + 1)) for k in ks], len(ks) < len(v) or d.chance(1, 5))
            n = d.choice([len(v), len(v), len(v), d.below(len(v) + 1)])
            end = d.bool()
            return self.sequence([self.fits(x, depth + 1) for x in (v[len(v) - n:] if end else v[:n])], ("end" if end else "start") if n < len(v) or d.chance(1, 5) else None)
        if d.chance(1, 4) or isinstance(v, (dict, list)):
            p = "_", lambda x: (x, {})
        else:
            p = scalar(d, v), lambda x: (x, {}) if type(x) is type(v) and x == v or isnum(x) and isnum(v) and x == v else None
        if d.chance(2, 3):
            return self.group([[p]])
        return p

    def group(self, ors):
        self.groups += 1
        n = str(self.groups)

        def f(x):
            for ands in ors:
                m, gs = None, {}
                for p in ands:
                    m = p[1](x)
                    if m is None:
                        break
                    gs.update(m[1])
                if m is not None:
                    return m[0], dict(gs, **{n: m[0]})
        return "(%s)" % " | ".join(" & ".join(p[0] for p in ands) for ands in ors), f

    def mapping(self, ps, more):
        def f(x):
            if not isinstance(x, dict) or any(q not in x for q, _ in ps) or not more and len(x) != len(ps):
                return None
            out, gs = dict(x), {}
            for q, p in ps:
                m = p[1](x[q])
                if m is None:
                    return None
                out[q] = m[0]
                gs.update(m[1])
            return out, gs
        body = ", ".join("%s: %s" % (key(q), p[0]) for q, p in ps)
        return ((["{... %s}", "{%s ...}"][self.d.below(2)]) if more else "{%s}") % body, f

    def sequence(self, ps, ellipsis):
        def f(x):
            if not isinstance(x, list) or len(x) < len(ps) or ellipsis is None and len(x) != len(ps):
                return None
            out, gs = list(x), {}
            for i, p in enumerate(ps):
                j = len(x) - len(ps) + i if ellipsis == "end" else i
                m = p[1](x[j])
                if m is None:
                    return None
                out[j] = m[0]
                gs.update(m[1])
            return out, gs
        return {None: "[%s]", "end": "[... %s]", "start": "[%s ...]"}[ellipsis] % ", ".join(p[0] for p in ps), f

    def literal(self, v, depth, grouped):
        d = self.d
        part = lambda x: self.any(depth + 1, grouped) if d.chance(1, 4) else self.literal(x, depth, grouped)
        if isinstance(v, dict):
            ps = {k: part(x) for k, x in v.items()}

            def f(x):
                if not isinstance(x, dict) or set(x) != set(ps):
                    return None
                out, gs = {}, {}
                for k, p in ps.items():
                    m = p[1](x[k])
                    if m is None:
                        return None
                    out[k] = m[0]
                    gs.update(m[1])
                return out, gs
            return "{%s}" % ", ".join("%s: %s" % (key(k), p[0]) for k, p in ps.items()), f
        if isinstance(v, list):
            ps = [part(x) for x in v]

            def f(x):
                if not isinstance(x, list) or len(x) != len(ps):
                    return None
                out, gs = [], {}
                for p, y in zip(ps, x):
                    m = p[1](y)
                    if m is None:
                        return None
                    out.append(m[0])
                    gs.update(m[1])
                return out, gs
            return "[%s]" % ", ".join(p[0] for p in ps), f
        return scalar(d, v), lambda x: (x, {}) if type(x) is type(v) and x == v or isnum(x) and isnum(v) and x == v else None


def scalar(d, v):
    if isinstance(v, str) and v not in ("null", "true", "false") and re.match(r"^[A-Za-z][A-Za-z0-9_.]*$", v) and d.bool():
        return v
    return json.dumps(v)


def extraction(d, doc):
    """text, path, node (None if the path is wrong)"""
    if d.chance(1, 3):
        return "x", (), True
    path = d.choice([at for at, _ in subtrees(doc)])
    if d.chance(1, 5):
        path = path[:d.below(len(path) + 1)] + (d.choice(["nosuch", 7, "a", 0]),)
    if not path:
        return "x", (), True
    good, node = True, doc
    for p in path:
        if isinstance(p, str) and isinstance(node, dict) and p in node or isinstance(p, int) and isinstance(node, list) and p < len(node):
            node = node[p]
        else:
            good = False
            break
    return "x[%s]" % ", ".join(str(p) if isinstance(p, int) else key(p) for p in path), path, good


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def place(index):
    return "[" + ", ".join(json.dumps(i) if isinstance(i, str) and " " in i else str(i) for i in index) + "]"


def depth(x):
    if isinstance(x, dict):
        return 1 + max([depth(v) for v in x.values()] or [0])
    if isinstance(x, list):
        return 1 + max([depth(v) for v in x] or [0])
    return 0


def looked(x, most, width):
    if depth(x) == 0:
        return json.dumps(x) + "\n"
    out = io.StringIO()
    t.look(x, maxDepth=most, indexWidth=width, inlineDepth=min(depth(x) - 1, 2), stream=out)
    return out.getvalue()


def queries(d):
    s = session()
    doc = tree(d)
    s.mode.pfaFiles["x"] = Model(copy.deepcopy(doc))
    s.mode.pfaFiles["y"] = Model({"y": [1, "a"]})
    what, path, good = extraction(d, doc)
    command = d.choice(["count", "count", "index", "find", "find", "look"])
    options = {}
    text, f = "", None
    if command != "look":
        ps = Patterns(d, doc)
        text, f = ps.fits(d.choice([x for _, x in subtrees(doc)])) if d.chance(1, 3) else ps.any()
    if command in ("look", "find"):
        for o in d.sample(["maxDepth", "indexWidth"], d.below(3)):
            options[o] = d.choice([1, 2, 5, 40, 40, 0, -1, 2.5, "q"])
    bad = any(not isinstance(v, int) or v <= 0 for v in options.values())
    if command in ("look", "find") and d.chance(1, 10):
        options["nosuch"], bad = 3, True
    line = "json %s %s %s %s" % (command, what, text, " ".join("%s=%s" % p for p in options.items()))
    d.note(line)
    d.note(doc)
    d.sut()
    out, why = s.run(line)
    if show(s.mode.pfaFiles["x"].obj) != show(doc):
        raise Violation("%s changes the document" % line)
    if out is None:
        if good and not bad:
            raise Violation("%s is refused: %s" % (line, why))
        d.nontrivial(line + show(doc))
        d.label("refused")
        return
    if not good or bad:
        raise Violation("%s is accepted" % line)
    node = at(doc, path)
    most, width = options.get("maxDepth", 8 if command == "look" else 3), options.get("indexWidth", 30)
    if command == "look":
        if out.rstrip("\n") != looked(node, most, width).rstrip("\n"):
            raise Violation("%s shows\n%s\nnot\n%s" % (line, out, looked(node, most, width)))
        d.nontrivial(line + show(doc))
        d.label("look")
        return
    want = [(i, x) for i, x in subtrees(node) if f(x) is not None]
    if command == "count":
        if out != "%d matches\n" % len(want):
            raise Violation("%s says %s; the matches are at %s" % (line, show(out), [place(i) for i, _ in want]))
    elif command == "index":
        rows = out.rstrip("\n").split("\n")[1:]
        if [r.strip() for r in rows] != ([place(i) for i, _ in want] or ["(none)"]):
            raise Violation("%s lists %s, the matches are at %s" % (line, rows, [place(i) for i, _ in want]))
    else:
        text = "".join("At index %s:\n%s\n" % (place(i), looked(x, most, width)) for i, x in want) or "    (none)\n"
        if out.rstrip("\n") != text.rstrip("\n"):
            raise Violation("%s finds\n%s\nnot\n%s" % (line, out, text))
    if want:
        d.nontrivial(line + show(doc))
    d.label("%s: %s" % (command, "several" if len(want) > 1 else len(want)))


class Ref(object):
    def __init__(self, n):
        self.n = n


def replacement(d, groups, depth=0):
    """text, value with references to groups"""
    k = d.below(6 if depth < 2 else 3)
    if k == 0 and groups:
        n = d.int(1, groups + (1 if d.chance(1, 8) else 0))
        return "(%d)" % n, Ref(str(n))
    if k < 3:
        v = d.choice(["a", "new", 7, -1.5, None, True, "a b", ""])
        return scalar(d, v), v
    if k == 3:
        xs = [replacement(d, groups, depth + 1) for _ in range(d.int(0, 2))]
        return "[%s]" % ", ".join(x for x, _ in xs), [y for _, y in xs]
    ks = d.sample(KEYS, d.int(0, 2))
    xs = [replacement(d, groups, depth + 1) for _ in ks]
    return "{%s}" % ", ".join("%s: %s" % (key(k), x[0]) for k, x in zip(ks, xs)), {k: x[1] for k, x in zip(ks, xs)}


def fill(r, groups):
    if isinstance(r, Ref):
        if r.n not in groups:
            raise KeyError(r.n)
        return copy.deepcopy(groups[r.n])
    if isinstance(r, list):
        return [fill(x, groups) for x in r]
    if isinstance(r, dict):
        return {k: fill(x, groups) for k, x in r.items()}
    return r


class Stop(Exception):
    pass


def changed(node, f, r, answers, seen, given):
    """the node with its matches replaced, as answered; given: one-element list (all)"""
    state = {"all": False}

    def visit(x, here):
        if isinstance(x, dict):
            for k in sorted(x):
                x[k] = visit(x[k], here + (k,))
        elif isinstance(x, list):
            for i in range(len(x)):
                x[i] = visit(x[i], here + (i,))
        if state.get("stop"):
            return x
        m = f(x)
        if m is None:
            return x
        new = fill(r, m[1])
        if not state["all"]:
            seen.append((here, copy.deepcopy(x), new))
            while True:
                a = answers[given[0]] if given[0] < len(answers) else "n"
                given[0] += 1
                a = a.strip().lower()
                if a in ("", "y", "yes", "n", "no", "all", "stop", "revert"):
                    break
            if a == "revert":
                raise Stop()
            if a == "stop":
                state["stop"] = True
            if a in ("n", "no", "stop"):
                return x
            if a == "all":
                state["all"] = True
        return new
    return visit(node, ())


def changes(d):
    s = session()
    doc = tree(d)
    s.mode.pfaFiles["x"] = Model(copy.deepcopy(doc))
    what, path, good = extraction(d, doc)
    ps = Patterns(d, doc)
    text, f = ps.fits(d.choice([x for _, x in subtrees(doc)])) if d.bool() else ps.any()
    to, r = replacement(d, ps.groups)
    answers = [d.weighted([(6, "y"), (2, "n"), (1, "all"), (1, "stop"), (1, "revert"), (1, ""), (1, " YES "), (1, "what"), (1, "No")]) for _ in range(d.int(1, 6))]
    word = "to" if not d.chance(1, 12) else d.choice(["too", "as", "\"to\"", "3"])
    line = "json change %s %s %s %s" % (what, text, word, to)
    d.note(line)
    d.note(answers)
    d.note(doc)
    want, seen, given = copy.deepcopy(doc), [], [0]
    wrong = not good or word != "to"
    if not wrong:
        try:
            node = changed(at(want, path), f, r, answers, seen, given)
            if path:
                at(want, path[:-1])[path[-1]] = node
            else:
                want = node
        except Stop:
            want = copy.deepcopy(doc)
        except KeyError:
            want, wrong = copy.deepcopy(doc), True
    d.sut()
    out, asked = s.run(line, answers + ["n"] * 400)
    got = s.mode.pfaFiles["x"].obj
    if show(got) != show(want):
        raise Violation("%s (answers %s) makes %s, not %s" % (line, answers, json.dumps(got), json.dumps(want)))
    if (out is None) != wrong:
        raise Violation("%s is %s (%s)" % (line, "refused" if out is None else "accepted", asked))
    if out is not None:
        shown = re.findall(r"At index (.*):\nOriginal:  (.*)\nChange to: (.*)\n", out)
        if [x[0] for x in shown] != [place(i) for i, _, _ in seen] or any(json.loads(a) != x or json.loads(b) != y for (_, a, b), (_, x, y) in zip(shown, seen)):
            raise Violation("%s asks about %s, not about %s" % (line, shown, [(place(i), x, y) for i, x, y in seen]))
    if seen or wrong:
        d.nontrivial(line + show(doc) + show(answers))
    d.label("refused" if wrong else "%d questions" % min(len(seen), 5))


def sessions(d):
    s = session()
    where = tempfile.mkdtemp(prefix="inspected", dir=HOME)
    try:
        _session(d, s, where)
    finally:
        shutil.rmtree(where, True)


def _session(d, s, where):
    memory, disk = {}, {}
    for name in ("one.pfa", "two"):
        doc = pfa(d)
        disk[name] = json.dumps(doc)
    disk["bad.pfa"] = "{\"a\": "
    for name, text in disk.items():
        with open(os.path.join(where, name), "w") as fp:
            fp.write(text)
    names = ["m", "n", "help2"]
    log = []
    file = lambda n: (lambda p: json.dumps(p) if d.chance(1, 3) else p)(os.path.join(where, n))
    for _ in range(d.int(3, 9)):
        k = d.choice(["load", "load", "load", "rename", "drop", "save", "change", "ext", "int", "list", "extra", "look", "valid", "valid", "retype", "ls"])
        a, b = d.choice(names), d.choice(names)
        good = True
        if k == "load":
            n = d.choice(["one.pfa", "two", "two", "out", "bad.pfa", "nosuch"])
            line = "load %s as %s" % (file(n), a)
            try:
                doc = json.loads(disk[n])
            except (KeyError, ValueError):
                good = False
            else:
                memory[a] = doc
        elif k == "rename":
            line = "rename %s as %s" % (a, b)
            good = a in memory
            if good:
                memory[b] = memory.pop(a)
        elif k == "drop":
            line = "drop %s" % a
            good = memory.pop(a, None) is not None
        elif k == "save":
            n = d.choice(["out", "two", "nodir/x"])
            line = "save %s to %s" % (a, file(n))
            good = a in memory and n != "nodir/x"
            if good:
                disk[n] = json.dumps(memory[a])
        elif k == "change":
            line = "json change %s[cells, c, init] # to %d" % (a, d.int(10, 12))
            good = a in memory and (memory[a]["cells"]["c"].get("source") != "json" or True)
            if good:
                v = memory[a]["cells"]["c"]["init"]
                if isnum(v):
                    memory[a]["cells"]["c"]["init"] = int(line.split()[-1])
                elif isinstance(v, dict):
                    for q in v:
                        v[q] = int(line.split()[-1]) if isnum(v[q]) else v[q]
        elif k == "retype":
            line = "json change %s[output] _ to %s" % (a, d.choice(["int", "long", "string"]))
            good = a in memory
            if good:
                memory[a]["output"] = line.split()[-1]
        elif k == "valid":
            line = "pfa valid %s" % a
            good = a in memory and memory[a]["output"] != "string"
        elif k in ("ext", "int"):
            what = d.choice(["c", "p", "b", "b", "nosuch"])
            pool = d.chance(1, 3)
            section = None
            if a in memory:
                for sec in (["pools", "cells"] if pool else ["cells", "pools"]):
                    if what in memory[a][sec]:
                        section = memory[a][sec][what]
                        break
            n = "ext%d" % len(log)
            if k == "ext":
                line = "pfa externalize %s %s %s%s" % (a, what, file(n), " cell=false" if pool else "")
                good = section is not None and section.get("source", "embedded") == "embedded"
                if good:
                    disk[n] = json.dumps(section["init"])
                    section["init"], section["source"] = os.path.join(where, n), "json"
            else:
                line = "pfa internalize %s %s%s" % (a, what, " cell=false" if pool else "")
                good = section is not None and section.get("source") == "json"
                if good:
                    section["init"] = json.loads(disk[os.path.basename(section["init"])])
                    del section["source"]
        elif k == "list":
            line = "list"
        elif k == "ls":
            line = "ls %s" % d.choice([file(""), json.dumps(os.path.join(where, "o*")), json.dumps(os.path.join(where, "b*"))])
        elif k == "extra":
            line, good = d.choice(["pwd x", "list a b", "back 1", "save %s" % a, "load as", "drop", "drop %s %s" % (a, b), "nosuch", "json", "json nosuch x", "rename %s to %s" % (a, b), "3", "help x", "pfa valid"]), False
        else:
            line = "json look %s[name]" % a
            good = a in memory
        log.append(line.replace(where, "DIR"))
        d.note(log[-1])
        d.sut()
        out, why = s.run(line, ["all"] if k in ("change", "retype") else [])
        if (out is not None) != good:
            raise Violation("%s: %s" % ("\n".join(log), "refused: %s" % why if out is None else "accepted"))
        if k == "list" and out.split() != sorted(memory):
            raise Violation("list says %s, loaded are %s" % (out.split(), sorted(memory)))
        if k == "ls":
            p = line[3:].strip('"')
            if out.split("\n") != sorted([os.path.join(where, n) for n in disk if n[0] == p[-2]] if p[-1] == "*" else disk) + [""]:
                raise Violation("%s lists %s, the files are %s" % (line, show(out), sorted(disk)))
        if k == "look" and good and json.loads(out) != memory[a]["name"]:
            raise Violation("%s says %s, not %s" % (line, out, memory[a]["name"]))
        got = {n: copy.deepcopy(m.obj) for n, m in s.mode.pfaFiles.items()}
        for doc in got.values():
            for sec in ("cells", "pools"):
                for c in doc[sec].values():
                    if c.get("source") == "embedded":     # the default
                        del c["source"]
        if show(got) != show(memory):
            raise Violation("%s: in memory are %s, not %s" % ("\n".join(log), json.dumps(got, sort_keys=True), json.dumps(memory, sort_keys=True)))
        files = {}
        for n in os.listdir(where):
            with open(os.path.join(where, n)) as fp:
                files[n] = fp.read()
        if set(files) != set(disk) or any(files[n] != disk[n] and json.loads(files[n] or "null") != json.loads(disk[n]) for n in disk):
            raise Violation("%s: the files are %s, not %s" % ("\n".join(log), show(files), show(disk)))
    for n, doc in memory.items():
        out, why = s.run("pfa valid %s" % n)
        if doc["output"] == "string":
            if out is not None:
                raise Violation("%s: pfa valid %s accepts an int for a string" % ("\n".join(log), n))
            continue
        if out is None:
            raise Violation("%s: pfa valid %s is refused: %s" % ("\n".join(log), n, why))
        out, why = s.run("pfa cells %s" % n)
        if out is None or sorted(re.findall(r"^(\w+): shared", out, re.M)) != sorted(doc["cells"]):
            raise Violation("pfa cells %s: %s" % (n, out or why))
        out, why = s.run("pfa pools %s pretty=false" % n)
        sizes = {}
        for p, q in doc["pools"].items():
            sizes[p] = len(json.loads(disk[os.path.basename(q["init"])]) if q.get("source") == "json" else q["init"])
        if out is None or {p: int(m) for p, m in re.findall(r"^(\w+): shared.* elements=(\d+)", out, re.M)} != sizes and all(q.get("source") != "json" for q in doc["pools"].values()):
            raise Violation("pfa pools %s: %s, the pools have %s" % (n, out or why, sizes))
    if len(log) >= 3 and memory:
        d.nontrivial(show(log))
    d.label("%d in memory" % len(memory))


def pfa(d):
    return {"name": d.choice(["First", "Second"]), "input": "null", "output": "int", "action": [{"cell": "c"}],
            "cells": {"c": {"type": "int", "init": d.int(0, 9)}, "b": {"type": {"type": "array", "items": "int"}, "init": [d.int(0, 3) for _ in range(d.int(0, 3))]}},
            "pools": {"p": {"type": "int", "init": {k: d.int(0, 9) for k in d.sample(["a", "b", "c"], d.int(0, 3))}}, "b": {"type": "string", "init": {"q": "z"}}}}


SUBS = [Sub("lines", lines, 1500, 20000), Sub("malformed", malformed, 1000, 15000), Sub("queries", queries, 1200, 15000), Sub("changes", changes, 1200, 15000), Sub("sessions", sessions, 250, 3000)]
