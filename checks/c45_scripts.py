"""C45: the command-line scripts."""
import contextlib
import copy
import gc
import io
import json
import os
import runpy
import shutil
import sys
import tempfile
import types
from decimal import Decimal

import avt
import engines
from avt import conforms, gen_env, gen_type, gen_value, toinput, tojson
from drive import Pair
from engines import outcome
from pbt import Discard, Violation, show
from progs import Program, RefEngine
from runner import Sub

import titus
import titus.producer.chain as chain

RULE = ("the scripts run on files of a scratch directory (ijson, which is not installed, is replaced by a small event reader with the same interface): pfaexternalize on generated documents with any choice of cells and pools, whose "
        "output must be the input with these initial values moved to their files and must behave like the reference interpreter of the original; pfasize against counts of a tree walk; pfarandom on generated schemas, whose "
        "documents must carry the options, load, and only return values of the schema (or fail as often as asked); pfachain on generated documents against the library; wrong arguments must be refused; "
        "non-trivial = something was extracted, counted, generated or chained; distinct = distinct documents, schemas and arguments")
ASSUMPTIONS = ["ijson.parse yields (prefix, event, value), with numbers as int or Decimal, as its documentation says", "schemas for pfarandom are not recursive, and input and output declare different types or are the same", "cells and pools to be externalized do not have a source yet"]
FACTOR = {"quick": 2, "thorough": 1}
SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(titus.__file__))), "scripts")


def parse(fp):
    def events(x):
        if isinstance(x, Object):
            yield "", "start_map", None
            for k, v in x:
                yield "", "map_key", k
                for e in events(v):
                    yield e
            yield "", "end_map", None
        elif isinstance(x, list):
            yield "", "start_array", None
            for v in x:
                for e in events(v):
                    yield e
            yield "", "end_array", None
        elif x is None:
            yield "", "null", None
        elif isinstance(x, bool):
            yield "", "boolean", x
        elif isinstance(x, str):
            yield "", "string", x
        else:
            yield "", "number", x
    return events(json.loads(fp.read(), object_pairs_hook=Object, parse_float=Decimal))


class Object(tuple):
    pass


def script(name, args, stdin=""):
    """output, standard error, exit code"""
    keep = sys.argv, sys.stdin, sys.modules.get("ijson")
    stub = types.ModuleType("ijson")
    stub.parse = parse
    sys.modules["ijson"] = stub
    sys.argv = [name] + list(args)
    sys.stdin = io.StringIO(stdin)
    out, err, code = io.StringIO(), io.StringIO(), 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(os.path.join(SCRIPTS, name), run_name="__main__")
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv, sys.stdin = keep[0], keep[1]
        if keep[2] is None:
            del sys.modules["ijson"]
        else:
            sys.modules["ijson"] = keep[2]
    gc.collect()                # what a finished process does with the files it left open
    gc.collect()
    return out.getvalue(), err.getvalue(), code


def scratch(f):
    def case(d):
        where = tempfile.mkdtemp(prefix="scripts")
        back = os.getcwd()
        os.chdir(where)
        try:
            f(d, where)
        finally:
            os.chdir(back)
            shutil.rmtree(where, True)
    return case


def write(name, text):
    with open(name, "w") as fp:
        fp.write(text)


def read(name):
    if not os.path.exists(name):
        raise Violation("%s is not written" % name)
    with open(name) as fp:
        return fp.read()


def load(text, what):
    try:
        return json.loads(text)
    except ValueError:
        raise Violation("%s is not JSON: %s" % (what, show(text)))


def program(d, **kw):
    p = Program(d, **kw)
    if engines.compile_outcome(p.doc)[0] != "ok":
        raise Discard()          # C01 decides this
    return p


def text(d, doc):
    return d.choice([json.dumps(doc), json.dumps(doc, indent=2), json.dumps(doc, separators=(",", ":"))])


def more(d, doc):
    """cells and pools with all kinds of values, which the program does not use"""
    env = avt.Env()
    for i in range(d.below(3)):
        t = gen_type(d, env)
        doc.setdefault("cells", {})["more%d" % i] = {"type": tojson(t, env), "init": avt.tojsonvalue(gen_value(d, t, env), t, env)}
    for i in range(d.below(2)):
        t = gen_type(d, env)
        doc.setdefault("pools", {})["more%d" % i] = {"type": tojson(t, env), "init": {k: avt.tojsonvalue(gen_value(d, t, env), t, env) for k in d.sample(["a", "", "b c", "\u00e9"], d.below(3))}}
    # keys like those of the document around them
    words = ["init", "source", "type", "cells", "pools", "more0", "rollback", "input"]
    nest = {"type": "map", "values": {"type": "map", "values": "int"}}

    def nested():
        return {a: {b: d.smallint(9) for b in d.sample(words, d.below(4))} for a in d.sample(words, d.below(4))}
    if d.chance(1, 3):
        doc.setdefault("cells", {})[d.choice(["alike", "init", "cells"])] = {"type": nest, "init": nested()}
    if d.chance(1, 3):
        doc.setdefault("pools", {})[d.choice(["likely", "source", "init"])] = {"type": nest, "init": {a: nested() for a in d.sample(words, d.int(1, 3))}}


@scratch
def externalize(d, where):
    p = program(d, maxcells=2)
    doc = json.loads(json.dumps(p.doc))
    more(d, doc)
    names = [("cell", n) for n in sorted(doc.get("cells", {}))] + [("pool", n) for n in sorted(doc.get("pools", {}))]
    if not names:
        raise Discard()
    chosen = d.sample(names, d.int(0, len(names)))
    args, files = [], {}
    for i, (kind, n) in enumerate(chosen):
        if d.bool() and (("pool" if kind == "cell" else "cell"), n) not in chosen:
            files[kind, n] = n + ".json"
            args.append("--%s-%s" % (kind, n))
        else:
            files[kind, n] = "out%d=.x" % i if d.chance(1, 4) else os.path.join(where, "file%d" % i)
            args.append("--%s-%s=%s" % (kind, n, files[kind, n]))
    if d.chance(1, 6):
        args.append("--%s-nosuch" % d.choice(["cell", "pool"]))
    flags = d.sample(["--verbose", "--progress"], d.below(2))
    stdin = "--progress" not in flags and d.chance(1, 3)
    tofile = d.bool()
    source = text(d, doc)
    write("in.pfa", source)
    args += flags + ["-" if stdin else "in.pfa"] + (["out.pfa"] if tofile else [])
    d.note(args)
    d.note(doc)
    d.sut()
    out, err, code = script("pfaexternalize", args, source if stdin else "")
    if code:
        raise Violation("pfaexternalize %s fails: %s" % (args, err))
    if tofile:
        out = read("out.pfa")
    elif "--progress" in flags:
        out = out[out.index("{"):] if "{" in out else out
        out = out[out.index("\n") + 1:] if "objects/arrays" in out.split("\n")[0] else out
    got = load(out, "the output")
    want = copy.deepcopy(doc)
    for (kind, n), f in files.items():
        c = want[kind + "s"][n]
        init = load(read(f), f)
        if json.dumps(init, sort_keys=True) != json.dumps(c["init"], sort_keys=True):
            raise Violation("%s %s has the initial value %s, %s has %s" % (kind, n, json.dumps(c["init"]), f, json.dumps(init)))
        c["init"], c["source"] = f, "json"
    if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
        raise Violation("pfaexternalize %s makes %s, not %s" % (args, json.dumps(got), json.dumps(want)))
    kind, engine = engines.compile_outcome(got)
    if kind != "ok":
        raise Violation("the output of pfaexternalize %s is refused: %s: %s" % (args, engine, json.dumps(got)))
    pair = Pair(p, engine, RefEngine(p, engine.config.name, engine.instance))
    pair.begin()
    for _ in range(d.int(1, 3)):
        pair.action(p.gen_input())
    pair.end()
    if files:
        d.nontrivial(json.dumps(got, sort_keys=True))
    d.label("%d of %d extracted" % (len(files), len(names)))


class Count(object):
    def __init__(self):
        self.strings = self.chars = self.numbers = self.atomics = self.items = self.values = self.depth = 0

    def visit(self, x, depth):
        if isinstance(x, dict):
            self.depth = max(self.depth, depth)
            for v in x.values():
                self.values += 1
                self.visit(v, depth + 1)
        elif isinstance(x, list):
            self.depth = max(self.depth, depth)
            for v in x:
                self.items += 1
                self.visit(v, depth + 1)
        elif x is None or isinstance(x, bool):
            self.atomics += 1
        elif isinstance(x, str):
            self.strings += 1
            self.chars += len(x)
        else:
            self.numbers += 1


@scratch
def size(d, where):
    p = program(d, maxcells=2)
    doc = json.loads(json.dumps(p.doc))
    more(d, doc)
    write("in.pfa", text(d, doc))
    d.note(doc)
    d.sut()
    out, err, code = script("pfasize", ["in.pfa"])
    got = {}
    for line in out.split("\n"):
        if line.startswith(("Cell: ", "Pool: ")):
            at = line
            got[at] = None
        elif line.strip():
            got[at] = line.split("\r")[-1].strip()
    want = {}
    for kind in ("cell", "pool"):
        for n, c in doc.get(kind + "s", {}).items():
            k = Count()
            k.visit(c["init"], 3)
            want["%s: %s" % (kind.capitalize(), n)] = k if isinstance(c["init"], (dict, list)) else None
    if set(got) != set(want):
        raise Violation("pfasize lists %s, the document has %s" % (sorted(got), sorted(want)))
    for n, k in want.items():
        if k is None:
            continue                # only containers are reported while they are read
        # the line is refreshed whenever a container starts: it counts at least what came before the last one
        full = "%d strings (%d chars), %d numbers, %d null/true/false, %d array items, %d object values (depth %d)" % (k.strings, k.chars, k.numbers, k.atomics, k.items, k.values, k.depth)
        if got[n] != full:
            raise Violation("pfasize says %r of %s, which has %s" % (got[n], n, full))
        d.nontrivial(full)
    d.label("%d sizes" % len([1 for k in want.values() if k is not None]))


def options(d):
    """arguments and members of the document"""
    args, doc = [], {}
    if d.chance(1, 2):
        doc["name"] = d.choice(["Whole", "A_b"])
        args += ["--name", doc["name"]]
    if d.chance(1, 3):
        doc["randseed"] = d.choice([0, 12345, 7])
        args += ["--randseed", str(doc["randseed"])]
    if d.chance(1, 3):
        doc["doc"] = d.choice(["some text", "", "\u00e9"])
        args += ["--doc", doc["doc"]]
    if d.chance(1, 3):
        doc["version"] = d.choice([0, 1, 22])
        args += ["--version", str(doc["version"])]
    if d.chance(1, 3):
        doc["metadata"] = {"a": d.choice(["b", ""]), "c": "d"}
        args += ["--metadata", json.dumps(doc["metadata"])]
    if d.chance(1, 3):
        doc["options"] = {"timeout": d.choice([10000, 20000])}
        args += ["--options", json.dumps(doc["options"])]
    return args, doc


def wrong(d, args):
    """spoils the arguments"""
    return args + d.choice([["--metadata", "{"], ["--metadata", "[]"], ["--metadata", "{\"a\": 1}"], ["--options", "nope"], ["--options", "3"], ["--randseed", "x"], ["--version", "1.5"], ["--nosuch"]])


@scratch
def random(d, where):
    ienv, oenv = gen_env(d, recursive=False), gen_env(d, recursive=False, prefix="Out")
    itype, otype = gen_type(d, ienv), gen_type(d, oenv)
    if d.chance(1, 5):
        oenv, otype = ienv, itype
    ischema, oschema = tojson(itype, ienv, set()), tojson(otype, oenv, set())
    write("in.avsc", json.dumps(ischema))
    write("out.avsc", json.dumps(oschema))
    args, members = options(d)
    chance = d.choice([None, None, "0.0", "1.0", "0.5"])
    if chance is not None:
        args += ["--exception", chance]
    check = d.chance(1, 8)
    if check and chance in (None, "0.0"):
        args.append("--check")
    tofile = d.bool()
    args += ["in.avsc", "out.avsc"] + (["made.pfa"] if tofile else [])
    bad = d.chance(1, 10)
    if bad:
        args = wrong(d, args) if d.chance(3, 4) else args + ["--exception", d.choice(["1.5", "-0.5"])]
    d.note(args)
    d.note(ischema)
    d.note(oschema)
    d.sut()
    out, err, code = script("pfarandom", args)
    if (code != 0) != bad:
        raise Violation("pfarandom %s ends with %s: %s" % (args, code, err))
    if bad:
        if out or os.path.exists("made.pfa"):
            raise Violation("pfarandom %s writes a document" % args)
        d.nontrivial(show(args))
        d.label("refused")
        return
    doc = load(read("made.pfa") if tofile else out, "the output")
    rest = {k: v for k, v in doc.items() if k not in ("input", "output", "action")}
    if rest != members:
        raise Violation("pfarandom %s: the document has %s, not %s" % (args, rest, members))
    if doc["input"] != ischema or doc["output"] != oschema:
        raise Violation("pfarandom: the schemas are %s and %s, not %s and %s" % (doc["input"], doc["output"], ischema, oschema))
    kind, e = engines.compile_outcome(doc)
    if kind != "ok":
        raise Violation("the document of pfarandom is refused: %s: %s" % (e, json.dumps(doc)))
    d.label(otype[0])
    failed = 0
    n = 40 if chance == "0.5" else 4
    for _ in range(n):
        datum = toinput(gen_value(d, itype, ienv), itype, ienv)
        r = outcome(e.action, datum)
        if r[0] == "user" and chance not in (None, "0.0"):
            failed += 1
        elif r[0] != "ok":
            raise Violation("the document of pfarandom fails: %s: %s" % (show(r), json.dumps(doc)))
        elif not conforms(r[1], otype, oenv):
            raise Violation("the document of pfarandom returns %s, which is not of %s" % (show(r[1]), json.dumps(oschema)))
    if chance == "1.0" and failed < n or chance == "0.5" and failed in (0, n):
        raise Violation("%d of %d actions failed with probability %s" % (failed, n, chance))
    d.nontrivial(json.dumps(doc, sort_keys=True))


@scratch
def chained(d, where):
    from c42_chain import sequence
    progs = sequence(d, d.choice([1, 2, 2, 3]))
    for i, p in enumerate(progs):
        if engines.compile_outcome(p.doc)[0] != "ok":
            raise Discard()
        p.doc.setdefault("name", "Step%d" % i)
        write("step%d" % i, json.dumps(p.doc))
    args, members = options(d)
    flags = d.sample(["--no-check", "--verbose"], d.below(3))
    if "name" not in members:
        args, members = args + ["--name", "Whole"], dict(members, name="Whole")
    args += flags
    tofile = d.bool()
    bad = d.chance(1, 10)
    if bad:
        args = wrong(d, args)
    args = args + ["step%d" % i for i in range(len(progs))] + ["out.pfa" if tofile else "-"]
    bad = bad or len(progs) < 2
    d.note(args)
    d.note([p.doc for p in progs])
    try:
        want = chain.jsonNode([p.doc for p in progs], False, True, **members)
    except Exception:
        raise Discard()             # C42 decides this
    d.sut()
    out, err, code = script("pfachain", args)
    if (code != 0) != bad:
        raise Violation("pfachain %s ends with %s: %s" % (args, code, err))
    if bad:
        if out or os.path.exists("out.pfa"):
            raise Violation("pfachain %s writes a document" % args)
        d.nontrivial(show(args))
        return
    if not tofile and "--verbose" in flags and "{" in out:
        out = out[out.index("{\""):]
    doc = load(read("out.pfa") if tofile else out, "the output")
    if json.dumps(doc, sort_keys=True) != json.dumps(want, sort_keys=True):
        raise Violation("pfachain %s makes %s, not %s" % (args, json.dumps(doc), json.dumps(want)))
    rest = {k: doc.get(k) for k in members}
    if rest != members:
        raise Violation("pfachain %s: the document has %s, not %s" % (args, rest, members))
    d.nontrivial(json.dumps(doc, sort_keys=True))


SUBS = [Sub("externalize", externalize, 120, 3000), Sub("size", size, 80, 1500), Sub("random", random, 120, 3000), Sub("chained", chained, 60, 1500)]
