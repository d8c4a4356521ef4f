"""An independent printer of PFA documents (Pythonized JSON) in PrettyPFA syntax."""
import base64
import json
import re

from pbt import Discard

RESERVED = {"idiv", "fcn", "if", "else", "while", "do", "until", "for", "foreach", "cast", "as", "ifnotnull", "unpack", "try", "var", "to", "init"}
SPECIAL = {"json", "int", "long", "float", "double", "string", "bytes", "do", "apply", "update", "new", "upcast", "pack", "doc", "error", "log"}
PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "bytes"]
# binary operators: name, text, level (higher binds tighter)
OR, XOR, AND, NOT, CMP, BOR, BXOR, BAND, ADD, MUL, NEG, POW, ATOM = range(1, 14)
STMT = 0
BIN = {"||": ("||", OR), "^^": ("^^", XOR), "&&": ("&&", AND), "==": ("==", CMP), "!=": ("!=", CMP), "<": ("<", CMP), "<=": ("<=", CMP), ">": (">", CMP), ">=": (">=", CMP),
       "|": ("|", BOR), "^": ("^", BXOR), "&": ("&", BAND), "+": ("+", ADD), "-": ("-", ADD), "*": ("*", MUL), "/": ("/", MUL), "//": ("idiv", MUL), "%": ("%", MUL), "%%": ("%%", MUL), "**": ("**", POW)}
UN = {"u-": ("-", NEG), "~": ("~", NEG), "!": ("!", NOT)}
NAME = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*\Z")
DOTNAME = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*(\.[A-Za-z_][A-Za-z_0-9]*)*\Z")
COMMENTS = ["", " a comment", " \"quoted", " it's", " {[(", " // more", " <<x>>", " input: int", "/"]


def isname(x):
    return NAME.match(x) is not None and x not in RESERVED


def conforming(t, v):
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t in ("int", "long"):
        return isinstance(v, int) and not isinstance(v, bool)
    if t in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    return isinstance(v, str) and (t != "bytes" or all(ord(c) < 256 for c in v))


class Printer(object):
    def __init__(self, d, doc, library, hoist=False, plain=False, subs=True, newline="\n"):
        self.d, self.doc, self.library = d, doc, library
        self.cells, self.pools = set(doc.get("cells", {})), set(doc.get("pools", {}))
        self.fcns = {"u." + n for n in doc.get("fcns", {})}
        self.hoist, self.plain, self.subsok, self.newline = hoist, plain, subs, newline
        self.hoisted = []
        self.aliases = {}
        self.subs = {}
        self.subkinds = {}
        self.features = set()
        self.count = 0

    # ------------------------------------------------------------ layout

    def s(self):
        """optional white space"""
        if self.plain:
            return ""
        k = self.d.below(24)
        return "" if k < 12 else " " if k < 20 else self.S()

    def S(self):
        """some white space"""
        if self.plain:
            return " "
        k = self.d.below(16)
        if k < 11:
            return " "
        if k == 11:
            return "\t"
        if k == 12:
            return "  "
        nl = self.newline
        if k == 13:
            return " //" + self.d.choice(COMMENTS) + nl + " "
        if k == 14:
            return nl + "\t" + nl + "  "
        return nl + "    "

    def sub(self, value, kind):
        """a substitution"""
        if not self.subsok:
            raise Discard()
        for n, v in self.subs.items():
            if v is value and self.subkinds[n] == kind:
                return "<<%s>>" % n
        n = "s%d" % len(self.subs) + self.d.choice(["", "_x", "Z"])
        self.subs[n] = value
        self.subkinds[n] = kind
        self.features.add("subs-" + kind)
        return "<<%s>>" % n

    def str(self, x, raw=True):
        if raw and "'" not in x and "\r" not in x and ("\n" not in x or self.newline == "\n") and self.d.chance(1, 3):
            if "\n" in x:
                self.features.add("raw newline")
            return "'" + x + "'"
        out = []
        for c in x:
            o = ord(c)
            if c in "\"\\":
                out.append("\\" + c)
            elif c == "\n":
                out.append("\\n")
            elif o < 32 or 127 <= o < 160 or 0xd800 <= o < 0xe000:
                out.append(self.d.choice(["\\u%04x" % o] + (["\\x%02x" % o] if o < 256 else [])))
            elif o > 126 and self.d.bool():
                out.append("\\U%08x" % o if o > 0xffff else "\\u%04x" % o)
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def key(self, x):
        """left of a colon"""
        if DOTNAME.match(x) and x not in RESERVED and self.d.chance(4, 5):
            return x
        return self.str(x)

    def word(self, x):
        """where a bare word stands for a string"""
        return x if DOTNAME.match(x) and x not in RESERVED and self.d.bool() else self.str(x)

    def seq(self, items, sep=","):
        return (self.s() + sep + self.s()).join(items)

    def paren(self, x, l="(", r=")"):
        return l + self.s() + x + self.s() + r

    # ------------------------------------------------------------ types

    def type(self, j, ns=""):
        d = self.d
        if isinstance(j, str):
            return j
        if isinstance(j, list):
            if len(j) < 2:
                return self.sub(j, "type")
            return self.alias(j, ns) or "union" + self.s() + self.paren(self.seq([self.type(x, ns) for x in j]))
        k = j["type"]
        if k in ("array", "map"):
            return self.alias(j, ns) or k + self.s() + self.paren(self.type(j["items" if k == "array" else "values"], ns))
        if k not in ("record", "enum", "fixed"):
            return self.type(k, ns)
        name, ns2 = j["name"], j.get("namespace") or ns
        if "." in name:
            ns2, name = name.rsplit(".", 1)
        full = ns2 + "." + name if ns2 else name
        if k == "fixed" and j["size"] == 0 or k == "enum" and not all(DOTNAME.match(x) and x not in RESERVED for x in j["symbols"]) or \
                k == "record" and any(x.get("default") is not None and d.chance(1, 4) for x in j["fields"]) and not self.hoist:
            return self.sub(dict(j, name=full) if "." in full else j, "type")
        shown = name if ns2 == ns and d.bool() else full
        if k == "fixed":
            items = [str(j["size"]), shown]
        elif k == "enum":
            items = [self.paren(self.seq(j["symbols"]), "[", "]"), shown]
        else:
            items = [self.key(f["name"]) + self.s() + ":" + self.s() + self.type(f["type"], ns2) for f in j["fields"]]
            items.insert(d.int(0, len(items)), shown)
        text = k + self.s() + self.paren(self.seq(items))
        if self.hoist and not ns2 and (name != "In" or d.bool()):
            self.hoisted.append(text)
            self.features.add("hoisted type")
            return full
        return text

    def alias(self, j, ns):
        """a name for this type, defined in the types section"""
        if not self.hoist or ns:
            return None
        k = json.dumps(j, sort_keys=True)
        if k in self.aliases:
            return self.aliases[k] if self.d.bool() else None
        if '"name"' in k or self.d.chance(3, 4):
            return None
        n = self.d.choice(["Alias%d", "alias_%d", "a.b%d"]) % len(self.aliases) if False else "Alias%d" % len(self.aliases)
        text = self.type_noalias(j)
        self.hoisted.append(n + self.s() + "=" + self.s() + text)
        self.aliases[k] = n
        self.features.add("type alias")
        return n

    def type_noalias(self, j):
        keep, self.hoist = self.hoist, False
        try:
            return self.type(j)
        finally:
            self.hoist = keep

    # ------------------------------------------------------------ JSON

    def number(self, v):
        t = repr(v)
        if isinstance(v, float):
            if t in ("inf", "-inf", "nan"):
                raise Discard()
            if "e" in t:
                t = t.replace("e", self.d.choice("eE"))
                if "." not in t and self.d.bool():
                    t = re.sub("[eE]", lambda m: ".0" + m.group(), t)
            elif t.endswith(".0") and self.d.chance(1, 4):
                t = t[:-1]
        return t

    def json(self, v):
        d = self.d
        if d.chance(1, 30) and self.subsok:
            return self.sub(v, "json")
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (int, float)):
            return self.number(v)
        if isinstance(v, str):
            return v if v not in ("null", "true", "false") and isname(v) and d.chance(1, 6) else self.str(v)
        if isinstance(v, list):
            return self.paren(self.seq([self.json(x) for x in v]), "[", "]")
        return self.paren(self.seq([self.key(k) + self.s() + ":" + self.s() + self.json(x) for k, x in v.items()]), "{", "}")

    # ------------------------------------------------------------ expressions

    def at(self, j, level):
        """the expression where at least this binding strength is needed"""
        t, l = self.expr(j)
        if l < level or l >= OR and self.d.chance(1, 12) and not self.plain:
            return self.paren(t)
        return t

    def e(self, j):
        """an expression between delimiters that cannot be part of it"""
        return self.at(j, OR)

    def arg(self, j):
        """argument: expression or function"""
        if isinstance(j, dict) and "params" in j:
            return self.fcn(j)
        return self.e(j)

    def args(self, xs):
        return self.paren(self.seq([self.arg(x) for x in xs]))

    def lst(self, x):
        return x if isinstance(x, list) else [x]

    def params(self, ps, f):
        return self.seq([self.key(k) + self.s() + ":" + self.s() + f(v) for k, v in ps])

    def fcn(self, j):
        self.features.add("fcn")
        ps = [list(p.items())[0] for p in j["params"]]
        return "fcn" + self.s() + "(" + self.s() + self.params(ps, self.type) + self.s() + "->" + self.s() + self.type(j["ret"]) + self.s() + ")" + self.s() + self.body(j["do"], False)

    def block(self, xs):
        d = self.d
        if not xs:
            raise Discard()
        ts = []
        for x in xs:
            t, l = self.expr(x)
            ts.append(self.paren(t) if d.chance(1, 16) and not self.plain else t)
        if len(ts) == 1 and not self.plain and d.chance(1, 6) or d.chance(1, 8):
            ts[-1] += self.s() + ";" + (self.s() + ";" if d.chance(1, 4) else "")
        return "{" + self.s() + self.seq(ts, ";") + self.s() + "}"

    def body(self, x, last=True):
        """a body: a block, or one expression"""
        xs = self.lst(x)
        if len(xs) == 1 and self.d.chance(2, 3):
            t, l = self.expr(xs[0])
            if not (isinstance(xs[0], dict) and "do" in xs[0] and len(set(xs[0]) - {"@"}) == 1):
                if l >= OR or last and self.d.bool():
                    return " " + t if not t.startswith(("(", "{")) else " {" + t + "}"
                return " " + self.paren(t) if False else " {" + t + "}"
        return self.s() + self.block(xs)

    def elses(self, j):
        return self.S() + "else" + self.body(j["else"]) if "else" in j else ""

    def names(self, m):
        """assignments"""
        if not m or not all(isname(k) for k in m):
            return None
        return self.seq([k + self.s() + "=" + self.s() + self.e(v) for k, v in m.items()])

    def where(self, base, path, glue=True):
        """base with brackets; leading literal strings may be dotted"""
        i, name = 0, base
        while glue and i < len(path):
            p = path[i]
            p = p[0] if isinstance(p, list) else p.get("string") if isinstance(p, dict) else None
            if p is None or not NAME.match(p) or name + "." + p in self.library or name + "." + p in self.fcns or not self.d.bool():
                break
            name += "." + p
            i += 1
            self.features.add("dots")
        return name, name + (self.s() + self.paren(self.seq([self.e(p) for p in path[i:]]), "[", "]") if path[i:] or i == 0 and path else ""), i == len(path)

    def plainref(self, x):
        return isname(x) and x not in ("null", "true", "false") and x not in self.cells and x not in self.pools and x not in self.library and x not in self.fcns

    def inexpressible(self, j):
        self.features.add("inexpressible")
        return self.sub(j, "expr"), ATOM

    def isfcn(self, j):
        return isinstance(j, dict) and ("params" in j or "fcn" in j)

    def expr(self, j):
        """text and binding strength"""
        self.count += 1
        if self.subsok and self.d.chance(1, 60) and not self.isfcn(j) and not (isinstance(j, dict) and {"let", "set"} & set(j)):
            return self.sub(j, "expr"), ATOM
        r = self.expr0(j)
        return self.inexpressible(j) if r is None else r

    def literal(self, t, v):
        d = self.d
        if isinstance(t, dict) and set(t) == {"type"}:
            t = t["type"]
        if isinstance(t, str) and t in PRIMS and not conforming(t, v):
            return None
        if t == "bytes":
            v = base64.b64encode(v.encode("latin-1")).decode()
        if isinstance(t, str) and d.bool() and t not in PRIMS and isinstance(v, str) and v != "" and isname(v) and DOTNAME.match(t) and self.isenum(t):
            self.features.add("enum symbol")
            return t + self.s() + "@" + self.s() + v, ATOM
        if isinstance(t, str) and t in ("int", "long", "float", "double", "string", "bytes") and d.bool():
            return t + self.s() + self.paren(self.json(v)), ATOM
        self.features.add("json()")
        return "json" + self.s() + self.paren(self.type(t) + self.s() + "," + self.s() + self.json(v)), ATOM

    def isenum(self, name):
        return True

    def expr0(self, j):
        d, s = self.d, self.s
        if j is None or isinstance(j, bool):
            return ("null" if j is None else "true" if j else "false"), ATOM
        if isinstance(j, int):
            if not -2**31 <= j < 2**31:
                return self.literal("long", j)
            return (self.number(j), ATOM) if d.chance(4, 5) else self.literal("int", j)
        if isinstance(j, float):
            t = self.number(j)
            return (t, ATOM) if not re.match("^-?[0-9]+$", t) and d.chance(4, 5) else self.literal("double", j)
        if isinstance(j, list):
            return (self.str(j[0]), ATOM) if d.chance(4, 5) else self.literal("string", j[0])
        if isinstance(j, str):
            w = j.split(".")
            if len(w) > 1:
                return self.expr0({"attr": w[0], "path": [int(x) if re.match("^-?[0-9]+$", x) else [x] for x in w[1:]]})
            return (j, ATOM) if self.plainref(j) else None
        j = {k: v for k, v in j.items() if k != "@"}
        ks = set(j)
        if ks == {"type", "value"}:
            return self.literal(j["type"], j["value"])
        if len(ks) == 1:
            (k, v), = j.items()
            if k in ("int", "long", "float", "double"):
                return self.expr0(v) if k == "int" and d.bool() else self.literal(k, v)
            if k == "string":
                return self.expr0([v])
            if k == "base64":
                return self.literal("bytes", base64.b64decode(v).decode("latin-1"))
        if "new" in ks:
            new = j["new"]
            if not new:
                self.features.add("new nothing")
                return self.literal(j["type"], new)
            isarray = isinstance(j["type"], dict) and j["type"].get("type") == "array"
            if isarray != isinstance(new, list):
                return None
            t = self.type(j["type"])
            if t.startswith("<<"):
                return None
            return "new" + s() + self.paren(t + s() + "," + s() + (self.seq([self.e(x) for x in new]) if isarray else self.params(new.items(), self.e))), ATOM
        if "until" in ks:
            return "do" + self.S() + self.body(j["do"], False) + self.S() + "until" + s() + self.paren(self.e(j["until"])), STMT
        if "params" in ks:
            return None
        if ks == {"do"}:
            return self.block(self.lst(j["do"])), ATOM
        if ks == {"let"}:
            t = self.names(j["let"])
            return t and ("var" + self.S() + t, STMT)
        if ks == {"set"}:
            if len(j["set"]) == 1 and (set(j["set"]) & (self.cells | self.pools) or any(self.isfcn(x) for x in j["set"].values())):
                return None
            t = self.names(j["set"])
            return t and (t, STMT)
        if "attr" in ks or "cell" in ks or "pool" in ks:
            return self.state(j, ks)
        if "if" in ks:
            return "if" + s() + self.paren(self.e(j["if"])) + self.body(j["then"], "else" not in j) + self.elses(j), STMT
        if "cond" in ks:
            out = []
            for i, c in enumerate(j["cond"]):
                lastone = i == len(j["cond"]) - 1 and "else" not in j
                out.append("if" + s() + self.paren(self.e(c["if"])) + self.body(c["then"], lastone))
            self.features.add("else if")
            return (self.S() + "else" + self.S()).join(out) + self.elses(j), STMT
        if "foreach" in ks:
            if j.get("seq", True):
                opt = s() + "," + s() + "seq" + s() + ":" + s() + "true"
            else:
                opt = s() + "," + s() + "seq" + s() + ":" + s() + "false" if d.bool() else ""
            return "foreach" + s() + self.paren(self.key(j["foreach"]) + s() + ":" + s() + self.e(j["in"]) + opt) + self.body(j["do"]), STMT
        if "forkey" in ks:
            return "foreach" + s() + self.paren(self.key(j["forkey"]) + s() + "," + s() + self.key(j["forval"]) + s() + ":" + s() + self.e(j["in"])) + self.body(j["do"]), STMT
        if "for" in ks:
            a, b = self.names(j["for"]), self.names(j["step"])
            return a and b and ("for" + s() + self.paren(a + s() + ";" + s() + self.e(j["while"]) + s() + ";" + s() + b) + self.body(j["do"]), STMT)
        if "while" in ks:
            return "while" + s() + self.paren(self.e(j["while"])) + self.body(j["do"]), STMT
        if "cast" in ks:
            opt = s() + "," + s() + "partial" + s() + ":" + s() + ("true" if j.get("partial") else "false") if j.get("partial") or d.chance(1, 4) else ""
            cases = ["as" + s() + self.paren(self.key(c["named"]) + s() + ":" + s() + self.type(c["as"])) + self.body(c["do"]) for c in j["cases"]]
            return "cast" + s() + self.paren(self.e(j["cast"]) + opt) + s() + "{" + s() + self.S().join(cases) + s() + "}", STMT
        if "upcast" in ks:
            return "upcast" + s() + self.paren(self.type(j["as"]) + s() + "," + s() + self.e(j["upcast"])), ATOM
        if "ifnotnull" in ks:
            return "ifnotnull" + s() + self.paren(self.params(j["ifnotnull"].items(), self.e)) + self.body(j["then"], "else" not in j) + self.elses(j), STMT
        if "pack" in ks:
            return "pack" + s() + self.paren(self.params([list(x.items())[0] for x in j["pack"]], self.e)), ATOM
        if "unpack" in ks:
            return "unpack" + s() + self.paren(self.e(j["unpack"]) + s() + "," + s() + self.params([list(x.items())[0] for x in j["format"]], self.word)) + self.body(j["then"], "else" not in j) + self.elses(j), STMT
        if "doc" in ks:
            return "doc" + s() + self.paren(self.str(j["doc"])), ATOM
        if "error" in ks:
            items = [self.word(j["error"])]
            if "code" in j:
                items.insert(d.below(2), "code" + s() + ":" + s() + self.number(j["code"]))
            return "error" + s() + self.paren(self.seq(items)), ATOM
        if "try" in ks:
            f = ""
            if "filter" in j:
                if not j["filter"]:
                    return None
                f = s() + self.paren(self.seq([self.word(x) if isinstance(x, str) else self.number(x) for x in j["filter"]]))
            return "try" + f + self.body(j["try"]), STMT
        if "log" in ks:
            items = [self.e(x) for x in self.lst(j["log"])]
            if "namespace" in j:
                items.insert(d.int(0, len(items)), "namespace" + s() + ":" + s() + self.word(j["namespace"]))
            return "log" + s() + self.paren(self.seq(items)), ATOM
        if "call" in ks:
            return "apply" + s() + self.paren(self.seq([self.e(x) for x in [j["call"]] + self.lst(j["args"])])), ATOM
        if "fcn" in ks:
            n = j["fcn"]
            if not DOTNAME.match(n) or n in SPECIAL:
                return None
            if "fill" not in j:
                return (n, ATOM) if n in self.library or n in self.fcns else None
            if not j["fill"]:
                return None
            return n + s() + self.paren(self.params(j["fill"].items(), self.arg)), ATOM
        (f, xs), = j.items()
        xs = self.lst(xs)
        if f in BIN and len(xs) == 2:
            if self.isfcn(xs[0]) or self.isfcn(xs[1]):
                return None
            t, l = BIN[f]
            self.features.add("operator")
            a = self.at(xs[0], l + 1 if l == CMP else l)
            b = self.at(xs[1], l + 1)
            if t == "idiv":
                return a + self.S() + t + self.S() + b, l
            if t == "/" and b.startswith("/"):
                b = " " + b
            return a + s() + t + s() + b, l
        if f in UN and len(xs) == 1:
            t, l = UN[f]
            self.features.add("operator")
            x = self.at(xs[0], l)
            return t + (" " if t == "-" and x[:1].isdigit() else s()) + x, l
        if not DOTNAME.match(f) or f in SPECIAL or f in RESERVED:
            return None
        if any(isinstance(x, dict) and "params" in x for x in xs):
            self.features.add("inline function")
        return f + s() + self.args(xs), ATOM

    def state(self, j, ks):
        """attr, cell and pool forms"""
        d, s = self.d, self.s
        path = j.get("path", [])
        if "del" in ks:
            return None
        if "attr" in ks:
            base = j["attr"]
            if isinstance(base, str) and "." not in base and self.plainref(base):
                if not path:
                    return None
                if "to" in ks and not self.isfcn(j["to"]) and len(path) == 1 and isinstance(path[0], list) and d.chance(1, 4):
                    self.features.add("update")
                    return "update" + s() + self.paren(base + s() + "," + s() + self.key(path[0][0]) + s() + ":" + s() + self.e(j["to"])), ATOM
            else:
                if "to" in ks and self.isfcn(j["to"]):
                    return None
                t, l = self.expr(base)
                if l < ATOM or t[:1] in "{-'\"0123456789" or DOTNAME.match(t) or d.bool():
                    t = self.paren(t)
                if t.endswith("]") and DOTNAME.match(t.split("[")[0].strip()) and False:
                    return None
                brackets = s() + self.paren(self.seq([self.e(p) for p in path]), "[", "]")
                self.features.add("general path")
                if "to" in ks:
                    return t + brackets + s() + "=" + s() + self.e(j["to"]), STMT
                return t + brackets, ATOM
        else:
            base = j["cell"] if "cell" in ks else j["pool"]
            if base not in (self.cells if "cell" in ks else self.pools) or base in self.library or not isname(base) or base in ("null", "true", "false"):
                return None
            if "pool" in ks and base in self.cells:
                return None
        name, text, dotted = self.where(base, path)
        if "to" not in ks:
            return text, ATOM
        if self.isfcn(j["to"]):
            init = self.S() + "init" + self.S() + self.e(j["init"]) if "init" in j else ""
            return text + self.S() + "to" + self.S() + self.arg(j["to"]) + init, STMT
        if "pool" in ks:
            if json.dumps(j["to"], sort_keys=True) != json.dumps(j["init"], sort_keys=True):
                return None
            if not path:
                return None
        self.features.add("deep assignment")
        return text + s() + "=" + s() + self.e(j["to"]), STMT

    # ------------------------------------------------------------ documents

    def exprs(self, x):
        d = self.d
        xs = self.lst(x)
        if not xs:
            raise Discard()
        if len(xs) == 1 and isinstance(xs[0], dict) and "do" in xs[0] and "until" not in xs[0] and "while" not in xs[0] and "foreach" not in xs[0] and "for" not in xs[0] and "forkey" not in xs[0]:
            return self.block(xs)
        if d.bool():
            return self.block(xs)
        out = self.seq([self.expr(y)[0] for y in xs], ";")
        return out + (self.s() + ";" if d.chance(1, 4) else "")

    def slot(self, n, c):
        d, s = self.d, self.s
        if not isname(n) or c.get("source", "embedded") != "embedded":
            raise Discard()
        items = [self.type(c["type"]) if d.chance(3, 4) else "type" + s() + ":" + s() + self.type(c["type"])]
        for k in ("shared", "rollback"):
            if c.get(k) or k in c and d.bool():
                items.insert(d.int(0, len(items)), k + s() + ":" + s() + ("true" if c[k] else "false"))
        if d.chance(1, 10):
            items.append("source" + s() + ":" + s() + "embedded")
        return n + s() + self.paren(self.seq(items)) + s() + "=" + s() + self.json(c.get("init", {}))

    def document(self):
        d, doc = self.d, self.doc
        parts = []
        for k, v in doc.items():
            if k in ("input", "output"):
                t = self.type(v)
            elif k in ("begin", "action", "end", "merge"):
                if k != "action" and not self.lst(v):
                    continue
                t = self.exprs(v)
            elif k in ("cells", "pools"):
                if not v:
                    continue
                t = (self.s() + ";" + self.s()).join([self.slot(n, c) for n, c in v.items()]) + (self.s() + ";" if d.chance(1, 4) else "")
            elif k == "fcns":
                if not v:
                    continue
                out = []
                for n, f in v.items():
                    if not DOTNAME.match(n) or n in RESERVED:
                        raise Discard()
                    out.append(n + self.s() + "=" + self.s() + self.fcn(f))
                t = (self.s() + ";" + self.s()).join(out) + (self.s() + ";" if d.chance(1, 4) else "")
            elif k in ("name", "method"):
                t = v
            elif k == "doc":
                t = self.str(v)
            elif k in ("version", "randseed"):
                t = self.number(v)
            else:
                t = self.json(v)
            parts.append((k, t))
        if self.hoisted:
            ts = self.seq(self.hoisted, ";")
            parts.append(("types", "{" + self.s() + ts + self.s() + "}" if d.bool() and not any(False for x in self.hoisted) else ts + (self.s() + ";" if d.chance(1, 4) else "")))
        parts = d.shuffle(parts) if d.bool() else parts
        nl = self.newline
        out = nl.join("%s:%s%s" % (k, self.S() if d.bool() else " ", t) for k, t in parts)
        pre = d.choice(["", "", nl, nl + nl, "// first" + nl, "  " + nl])
        return pre + out + d.choice(["", nl, nl + "  ", " // end", " // end" + nl])
