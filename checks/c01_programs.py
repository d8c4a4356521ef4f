"""C01: well-typed programs evaluate to what the language defines."""
import json

import pbt
from pbt import Violation, show
from runner import Sub
from progs import Program
from drive import pair

RULE = ("one generated document per case (types, functions, cells, pools, begin/action/end), driven through begin, several actions and end, and compared with "
        "an independent interpreter after every call: outputs, errors, cells, pools, emitted and logged values, counters; a case is non-trivial when at "
        "least one action returned a value and the program uses at least two language features beyond literals and references; distinct = distinct documents")
ASSUMPTIONS = ["the order in which the fields of \"new\" records and maps, and the entries of \"forkey\" loops, are evaluated is unspecified: generated programs do not depend on it",
               "floating point values are exact in the generated range (no rounding differences)"]
FACTOR = {"quick": 3, "thorough": 6}


def history(d, p):
    q = pair(p)
    oks = 0
    d.sut()
    q.begin()
    for _ in range(d.int(1, 4)):
        got, _ = q.action(p.gen_input())
        oks += got[0] == "ok"
        d.label("action " + got[0])
    if p.method == "fold" and d.bool():
        q.merge(p.g.value(p.output), p.g.value(p.output))
    q.end()
    return oks


def programs(method):
    def case(d):
        p = Program(d, method)
        d.note(p.doc)
        oks = history(d, p)
        for f in p.g.features:
            d.label(f)
        if oks and len(p.g.features) >= 2:
            d.nontrivial(json.dumps(p.doc, sort_keys=True))
    return case


SUBS = [Sub("map", programs("map"), 700, 15000), Sub("emit", programs("emit"), 350, 8000), Sub("fold", programs("fold"), 350, 8000)]
