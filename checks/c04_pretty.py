"""C04: PrettyPFA text compiles to the PFA document it denotes."""
import copy
import json
import re

import avro.schema
import titus.pfaast
import titus.prettypfa as prettypfa
from titus.errors import PFAException, PrettyPfaException, SchemaParseException, AvroException, PFASyntaxException, PFASemanticException, PFAInitializationException
from titus.genpy import PFAEngine
from titus.reader import jsonToAst

import c03_roundtrip
from c03_roundtrip import Normal, canon, firstdiff, strip
import engines
from drive import Pair
from pbt import Violation, Discard, show
from ppfa import Printer, conforming, BIN, UN, CMP, PRIMS
from progs import Program, RefEngine
from runner import Sub

RULE = ("generated documents (syntactically valid ones that use every form, and well-typed programs) printed in PrettyPFA by an independent printer that varies spacing, line ends, comments, quoting, parentheses, blocks, dotted "
        "names and brackets, else-if chains, type definitions, aliases, order of sections and substitutions: the parsed document is compared with the original, positions with the lines of the text, and well-typed ones "
        "are run against the reference interpreter; infix expressions over all operators; texts damaged at random are accepted or refused with a PFA exception; non-trivial when the text has at least ten expressions "
        "(three operators for infix expressions); distinct = distinct texts")
ASSUMPTIONS = ["\"foreach\" without \"seq\" means \"seq\": false in PrettyPFA", "bytes(...) and json(bytes, ...) take base64", "attributes of fields (defaults, orders) have no PrettyPFA syntax",
               "variables that have the name of a cell, a pool or a function cannot be referred to by name"]
FACTOR = {"quick": 3, "thorough": 6}

LIBRARY = set(titus.pfaast.FunctionTable.blank().functions)
PFAERRORS = (PFAException, PrettyPfaException, SchemaParseException, AvroException, avro.schema.AvroException)     # (the test suite wants avro's for duplicates in a union)


# ------------------------------------------------------------------ normal forms

def literal(t, v):
    if t == "bytes":
        return {"base64": v.encode("latin-1").hex()}
    if t in ("float", "double"):
        return {t: float(v)}
    if t == "int" and not -2**31 <= v < 2**31:
        t = "long"        # (an int literal that is not an int is written as a bare number)
    return v if t in ("null", "boolean") else {t: v}


def pretty(x):
    """what PrettyPFA cannot tell apart"""
    if isinstance(x, list):
        return [pretty(y) for y in x]
    if not isinstance(x, dict):
        return x
    x = {k: pretty(v) for k, v in x.items()}
    if "new" in x and not x["new"]:
        x["value"] = x.pop("new")
    if set(x) == {"type", "value"} and isinstance(x["type"], str) and x["type"] in PRIMS and conforming(x["type"], x["value"]):
        return literal(x["type"], x["value"])
    if "cond" in x:
        cs = x["cond"]
        out = dict(cs[-1], **({"else": x["else"]} if "else" in x else {}))
        for c in reversed(cs[:-1]):
            out = dict(c, **{"else": [out]})
        return out
    return x


def normal(doc):
    n = Normal()
    doc = strip(doc)
    data = {k: doc[k] for k in ("zero", "metadata", "options") if k in doc}
    inits = {(k, a): s.get("init", {}) for k in ("cells", "pools") for a, s in doc.get(k, {}).items()}
    out = pretty(n.doc(doc))
    out.update(data)
    for (k, a), v in inits.items():
        out[k][a]["init"] = v
    out["(types)"] = {k: [t[0]] + [f[:2] for f in t[1:]] if t[0] == "record" else t for k, t in n.table.items()}
    return canon(out)


def compare(want, got, text, noname, what="the text"):
    got = dict(got)
    if noname:
        got.pop("name", None)
    r = firstdiff(want, normal(got))
    if r:
        raise Violation("%s does not denote the document it was printed from: %s\n%s" % (what, r, text))


def hasnamed(j):
    """mentions a named type (or may do so)"""
    if isinstance(j, dict):
        for k, v in j.items():
            if k in ("type", "as", "ret") and not closed(v) or k == "params" and any(not closed(t) for p in v for t in p.values()) or hasnamed(v):
                return True
        return False
    return isinstance(j, list) and any(hasnamed(x) for x in j)


def closed(t):
    if isinstance(t, str):
        return t in PRIMS
    if isinstance(t, list):
        return all(closed(x) for x in t)
    return isinstance(t, dict) and closed(t.get("items", t.get("values", t.get("type"))))


def choosesubs(d, pr):
    """the values for the substitutions: PFA as JSON, as a tree, or PrettyPFA text"""
    out = {}
    for n, v in list(pr.subs.items()):
        if pr.subkinds[n] != "expr":
            out[n] = v
            continue
        if d.chance(1, 3):
            inner = Printer(d, pr.doc, LIBRARY, plain=d.bool(), subs=False)
            try:
                out[n] = inner.at(v, 1)
                d.label("subs-text")
                continue
            except Discard:
                pass
        isfcn = isinstance(v, dict) and ("params" in v or "fcn" in v)
        if hasnamed(v) and not isfcn and not isinstance(v, str) or not isfcn and not isinstance(v, str) and d.bool():
            out[n] = v
        elif hasnamed(v):
            raise Discard()
        else:
            out[n] = jsonToAst.expr({"f": [v]}).args[0]
            d.label("subs-tree")
    return out


# ------------------------------------------------------------------ checks

def parse(text, subs, what="a well-formed text"):
    try:
        return prettypfa.ast(text, check=False, subs=subs)
    except Exception as err:
        raise Violation("%s is refused (%s: %s):\n%s\nsubstitutions: %s" % (what, type(err).__name__, err, text, show(subs)))


def positions(tree, text, textual):
    """positions point at the lines where the names are (the text of a substitution has lines of its own)"""
    if textual:
        return
    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    every = lambda x: x
    every.isDefinedAt = lambda x: isinstance(x, titus.pfaast.Ast)
    for x in tree.collect(every):
        pos = getattr(x, "pos", None)
        m = re.match("^PrettyPFA lines? ([0-9]+)(-([0-9]+))?$", pos) if isinstance(pos, str) else None
        if m is None:
            continue
        a, b = int(m.group(1)), int(m.group(3) or m.group(1))
        if not 1 <= a <= b <= len(lines):
            raise Violation("%s has the position %s in a text with %d lines:\n%s" % (type(x).__name__, pos, len(lines), text))
        part = "\n".join(lines[a - 1:b])
        name = x.name if isinstance(x, (titus.pfaast.Ref, titus.pfaast.Call, titus.pfaast.FcnRef)) else x.cell if isinstance(x, titus.pfaast.CellGet) else None
        if name is not None and not isinstance(name, str):
            continue
        if name is not None and name[0].isalpha() and name not in part:
            raise Violation("%s %s has the position %s, which reads %r\n%s" % (type(x).__name__, name, pos, part, text))


def newline(d):
    return d.choice(["\n", "\n", "\n", "\r\n"])


def documents(d):
    g = c03_roundtrip.Gen(d)
    doc = g.doc()
    if set(doc.get("cells", {})) & set(doc.get("pools", {})):
        raise Discard()
    d.note(doc)
    pr = Printer(d, doc, LIBRARY, hoist=False, plain=d.chance(1, 8), newline=newline(d))
    text = pr.document()
    subs = choosesubs(d, pr)
    want = normal(doc)
    d.note([text, show(subs)])
    d.sut()
    tree = parse(text, subs)
    compare(want, tree.jsonNode(False, set()), text, "name" not in doc)
    positions(tree, text, any(isinstance(v, str) and pr.subkinds[n] == "expr" for n, v in subs.items()))
    for f in pr.features:
        d.label(f)
    if pr.count >= 10:
        d.nontrivial(text)


def programs(d):
    p = Program(d)
    d.note(p.doc)
    pr = Printer(d, p.doc, LIBRARY, hoist=d.bool(), plain=d.chance(1, 8), newline=newline(d))
    text = pr.document()
    subs = choosesubs(d, pr)
    want = normal(p.doc)
    d.note([text, show(subs)])
    inputs = [p.gen_input() for _ in range(d.int(1, 3))]
    tree = parse(text, subs)
    compare(want, tree.jsonNode(False, set()), text, "name" not in p.doc)
    positions(tree, text, any(isinstance(v, str) and pr.subkinds[n] == "expr" for n, v in subs.items()))
    k = d.below(4)
    try:
        if k == 0:
            e, = prettypfa.engine(text, subs=subs)
        elif k == 1:
            e, = PFAEngine.fromJson(prettypfa.json(text, lineNumbers=d.bool(), check=d.bool(), subs=subs))
        elif k == 2:
            e, = PFAEngine.fromJson(prettypfa.jsonNode(text, lineNumbers=d.bool(), check=d.bool(), subs=subs))
        else:
            e, = PFAEngine.fromAst(prettypfa.ast(text, check=d.bool(), **subs))
    except Exception as err:
        raise Violation("a well-formed text is refused (%s: %s):\n%s\nsubstitutions: %s" % (type(err).__name__, err, text, show(subs)))
    q = Pair(p, e, RefEngine(p, e.config.name, e.instance))
    d.sut()
    q.begin()
    oks = 0
    for x in inputs:
        oks += q.action(x)[0][0] == "ok"
    q.end()
    for f in pr.features:
        d.label(f)
    d.label("entry %d" % k)
    if oks and pr.count >= 10:
        d.nontrivial(text)


LEAVES = ["x", "y", "z", 1, 2.5, -3, ["s"], True, None, {"a.len": ["y"]}, {"m.abs": [-1]}, {"attr": "x", "path": ["i"]}, {"attr": "x", "path": [["f"], 0]}, {"attr": {"f.g": ["x"]}, "path": [0]},
          {"attr": {"attr": "x", "path": [1]}, "path": [["k"]]}]


def tree(d, depth):
    if depth == 0 or d.chance(1, 5):
        x = copy.deepcopy(d.choice(LEAVES))
        return x
    if d.chance(1, 5):
        return {d.choice(sorted(UN)): [tree(d, depth - 1)]}
    return {d.choice(sorted(BIN)): [tree(d, depth - 1), tree(d, depth - 1)]}


def ops(x):
    if isinstance(x, dict):
        return sum(k in BIN or k in UN for k in x) + sum(ops(v) for v in x.values())
    return sum(ops(v) for v in x) if isinstance(x, list) else 0


def infix(d):
    t = tree(d, d.int(1, 5))
    pr = Printer(d, {}, LIBRARY, plain=d.chance(1, 3), subs=False)
    text = pr.expr(t)[0]
    d.note([t, text])
    d.sut()
    n = Normal()
    want = canon(pretty(n.expr(t)))
    k = d.below(3)
    try:
        if k == 0:
            got = prettypfa.expr(text)
        elif k == 1:
            got = prettypfa.ppfa(text).jsonNode(False, set())
        else:
            got = prettypfa.ppfas(text + d.choice(["", ";"]))[0].jsonNode(False, set())
    except Exception as err:
        raise Violation("%s is refused (%s: %s)" % (text, type(err).__name__, err))
    r = firstdiff(want, canon(pretty(Normal().expr(strip(got)))), "expression")
    if r:
        raise Violation("%s is read as %s, not %s: %s" % (text, json.dumps(got), json.dumps(t), r))
    if ops(t) >= 3:
        d.nontrivial(text)


def later(d):
    """substitutions made in a parsed tree"""
    g = c03_roundtrip.Gen(d)
    doc = g.doc()
    for k in ("fcns", "cells", "pools"):
        doc.pop(k, None)
    doc["action"] = [tree(d, d.int(1, 4)) for _ in range(d.int(1, 3))]
    doc["input"] = doc["output"] = "int"
    for k in ("begin", "end", "merge", "zero"):
        doc.pop(k, None)
    doc["method"] = d.choice(["map", "emit"])
    doc.setdefault("name", "Name")
    pr = Printer(d, doc, LIBRARY, plain=d.bool())
    text = pr.document()
    vals = {n: v for n, v in choosesubs(d, pr).items() if pr.subkinds[n] == "expr"}
    now = {n: v for n, v in pr.subs.items() if n not in vals}
    want = normal(doc)
    d.note([text, show(vals)])
    d.sut()
    tr = parse(text, now)
    names = sorted(vals)
    cut = d.int(0, len(names))
    for part in (names[:cut], names[cut:]):
        try:
            tr = prettypfa.subs(tr, **{n: vals[n] for n in part})
        except Exception as err:
            raise Violation("substituting %s is refused (%s: %s):\n%s" % (show({n: vals[n] for n in part}), type(err).__name__, err, text))
    compare(want, tr.jsonNode(False, set()), text, False, "the text with substitutions %s" % show(vals))
    if vals:
        d.nontrivial(text)


TOKENS = re.compile(r"//[^\n]*|'[^']*'|\"(?:[^\\\n]|\\.)*\"|[A-Za-z_][A-Za-z_0-9.]*|<<\w+>>|[0-9.eE]+|\s+|->|[*]{2}|[=!<>]=|&&|[|]{2}|\^\^|%%|.", re.S)
JUNK = ["(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "@", "->", "to", "init", "fcn", "if", "else", "var", "try", "cast", "as", "x", "1", "-1", "2.5", "\"s\"", "'r'", "null", "true", "<<zz>>", "json", "new",
        "error", "log", "union", "array", "record", "fixed", "enum", "map", "+", "-", "**", "!", "$", "#", "\n", "\naction:", "\ncells:", "\npools:", "\nfcns:", "\ntypes:", "\nname:", "\nzero:", "\noptions:",
        "\nmethod:", "\ninput:", "\noutput:", "\nnosuch:", "\"", "'", "1e", "0.", "foreach", "shared", "update", "upcast", "pack", "unpack", "ifnotnull", "apply", "doc", "long", "bytes", "until", "do", "idiv"]


def damaged(d):
    if d.bool():
        p = Program(d)
        doc = p.doc
    else:
        doc = c03_roundtrip.Gen(d).doc()
    pr = Printer(d, doc, LIBRARY, hoist=d.bool(), plain=d.bool())
    text = pr.document()
    subs = choosesubs(d, pr)
    toks = TOKENS.findall(text)
    for _ in range(d.int(1, 3)):
        i = d.below(len(toks))
        k = d.below(5)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks[i] = d.choice(JUNK)
        elif k == 2:
            toks.insert(i, d.choice(JUNK))
        elif k == 3:
            j = d.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks = toks[:i] if d.bool() else toks[i:]
        if not toks:
            raise Discard()
    bad = "".join(toks)
    d.note([bad, show(subs)])
    d.sut()
    try:
        prettypfa.ast(bad, check=False, subs=subs)
        d.label("accepted")
    except PFAERRORS as err:
        d.label(type(err).__name__)
        if type(err) is PrettyPfaException:
            d.nontrivial(bad)
    except Exception as err:
        raise Violation("a damaged text makes the parser fail with %s (%s):\n%s" % (type(err).__name__, err, bad))


SUBS = [Sub("later", later, 200, 4000), Sub("damaged", damaged, 400, 10000), Sub("documents", documents, 500, 10000), Sub("programs", programs, 250, 5000), Sub("infix", infix, 1500, 40000)]
