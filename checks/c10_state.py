"""C10: cells and pools behave as persistent named state."""
import json

from pbt import Violation
from runner import Sub
import stateops
from progs import Program
from drive import pair

RULE = ("ops: a generated document with cells and pools of generated nested types whose action is a list of guarded operations (get, replace, path update, update by inline or user "
        "function, pool creation and deletion, from input, variables or other cells), run over generated inputs that switch operations on and off; every value an operation sees and the "
        "whole state after each action are compared with a dictionary model; programs: generated programs with state against the reference interpreter; "
        "a case is non-trivial when at least one update was performed and one action succeeded; distinct = distinct documents and histories")
ASSUMPTIONS = ["a cell update returns the whole new cell value, a pool update the whole new item (as the PFA specification says)"]
FACTOR = {"quick": 3, "thorough": 6}


def ops(d):
    doc = stateops.StateDoc(d)
    d.note(doc.doc)
    r = stateops.run(d, doc)
    d.sut()
    oks = 0
    for _ in range(d.int(1, 6)):
        got = r.action(doc.gen_input())
        d.label("action %s" % (got[0] if got[0] != "err" else "err %d" % got[1]))
        oks += got[0] == "ok"
    if oks and r.ref.logged:
        d.nontrivial(json.dumps([doc.doc, r.history], sort_keys=True, default=str))


def programs(d):
    p = Program(d, maxcells=3, depth=3)
    if not (p.cells0 or p.pools0):
        d.label("no state")
    d.note(p.doc)
    q = pair(p)
    d.sut()
    q.begin()
    oks = 0
    for _ in range(d.int(2, 6)):
        got, _ = q.action(p.gen_input())
        oks += got[0] == "ok"
    q.end()
    if oks and any(f in p.g.features for f in ("cell-to", "pool-to", "pool-del")):
        d.nontrivial(json.dumps(p.doc, sort_keys=True))


SUBS = [Sub("ops", ops, 1000, 25000), Sub("programs", programs, 250, 6000)]
