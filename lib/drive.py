"""Runs a generated program in the engine and in the reference side by side and compares everything observable."""
import json

import avt
import engines
from avt import MAP, match, toinput
from engines import outcome, refoutcome, Err, UserErr
from pbt import Violation, show
from progs import Program, RefEngine


class Pair(object):
    """one engine and its reference"""

    def __init__(self, prog, engine, ref):
        self.prog, self.engine, self.ref = prog, engine, ref
        self.emitted, self.logged = [], []
        engine.emit = self.emitted.append
        engine.log = lambda message, namespace: self.logged.append((list(message), namespace))
        self.history = []

    def fail(self, what):
        raise Violation("%s\nprogram: %s\nhistory: %s" % (what, show(self.prog.doc, 6000), show(self.history, 2000)))

    def both(self, what, f, g, type_=None, deep=True):
        p = self.prog
        want = refoutcome(g)
        got = outcome(f)
        if got[0] != want[0] or (got[0] != "ok" and got != want):
            self.fail("%s: engine gave %s, the language defines %s" % (what, show(got), show(want)))
        if got[0] == "ok" and type_ is not None:
            if not avt.conforms(got[1], type_, p.env):
                self.fail("%s returned %s, which is not a value of type %s" % (what, show(got[1]), type_))
            if not match(got[1], want[1], type_, p.env):
                self.fail("%s returned %s, the language defines %s" % (what, show(got[1]), show(want[1])))
        if deep:
            self.state(what)
        return got, want

    def state(self, what):
        p, rt, e = self.prog, self.ref.rt, self.engine
        for n, (t,) in p.g.cells.items():
            if not match(e.cells[n].value, rt.cells[n], t, p.env):
                self.fail("after %s cell %s holds %s, the language defines %s" % (what, n, show(e.cells[n].value), show(rt.cells[n])))
        for n, (t,) in p.g.pools.items():
            if not match(e.pools[n].value, rt.pools[n], MAP(t), p.env):
                self.fail("after %s pool %s holds %s, the language defines %s" % (what, n, show(e.pools[n].value), show(rt.pools[n])))
        if len(self.emitted) != len(rt.emitted) or not all(match(a, b, p.output, p.env) for a, b in zip(self.emitted, rt.emitted)):
            self.fail("after %s the engine has emitted %s, the language defines %s" % (what, show(self.emitted), show(rt.emitted)))
        if len(self.logged) != len(rt.logged):
            self.fail("after %s %d messages were logged, expected %d" % (what, len(self.logged), len(rt.logged)))
        for (ms, ns), (ws, wn) in zip(self.logged, rt.logged):
            if ns != wn or len(ms) != len(ws) or not all(match(m, v, t, p.env) for m, (v, t) in zip(ms, ws)):
                self.fail("after %s logged %s in %s, expected %s in %s" % (what, show(ms), ns, show([v for v, _ in ws]), wn))
        if e.actionsStarted != self.ref.started or e.actionsFinished != self.ref.finished:
            self.fail("after %s the counters are %d started, %d finished; expected %d, %d"
                      % (what, e.actionsStarted, e.actionsFinished, self.ref.started, self.ref.finished))
        if p.method == "fold" and not match(e.tally, self.ref.tally, p.output, p.env):
            self.fail("after %s the tally is %s, expected %s" % (what, show(e.tally), show(self.ref.tally)))

    def begin(self):
        self.history.append("begin")
        return self.both("begin", self.engine.begin, self.ref.begin)

    def end(self):
        self.history.append("end")
        return self.both("end", self.engine.end, self.ref.end)

    def action(self, x):
        p = self.prog
        datum = toinput(x, p.intype, p.env)
        self.history.append(datum)
        import copy
        keep = copy.deepcopy(datum)
        r = self.both("action(%s)" % show(datum), lambda: self.engine.action(datum), lambda: self.ref.action(x),
                      None if p.method == "emit" else p.output)
        if datum != keep:
            self.fail("action changed its input: %s became %s" % (show(keep), show(datum)))
        return r

    def merge(self, a, b):
        p = self.prog
        ta, tb = toinput(a, p.output, p.env), toinput(b, p.output, p.env)
        self.history.append(["merge", ta, tb])
        return self.both("merge(%s, %s)" % (show(ta), show(tb)), lambda: self.engine.merge(ta, tb), lambda: self.ref.domerge(a, b), p.output)


def pair(prog, **kw):
    kind, engine = engines.compile_outcome(prog.doc, **kw)
    if kind != "ok":
        raise Violation("a well-formed program is refused (%s error): %s\nprogram: %s" % (kind, engine, json.dumps(prog.doc)))
    return Pair(prog, engine, RefEngine(prog, engine.config.name, engine.instance))
