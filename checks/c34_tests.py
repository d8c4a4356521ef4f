"""C34: statistical tests and change detectors."""
import math

import resid
from pbt import Violation, close, show
from runner import Sub
from engines import Err, check_call
from resid import D, I, AD, INF, NAN, div, num

RULE = ("one generated call per case, or one stream of observations with every intermediate state checked; samples with and without ties, non-finite values, misaligned shapes; "
        "distinct = distinct (function, arguments)")
ASSUMPTIONS = ["the two-sample Kolmogorov-Smirnov statistic is the largest difference of the two empirical distribution functions (ties included); NaN entries are dropped; "
               "identical samples give 1 and an empty sample against a non-empty one gives 0, as the code states",
               "a singular covariance has no Mahalanobis distance (NaN), like an indefinite one",
               "degrees-of-freedom and run counters beyond the range of an int are outside the domain"]
FACTOR = {"quick": 2, "thorough": 8}


def sample(d, n, ties):
    if ties:
        pool = [d.choice([0.0, 1.0, 1.5, -2.0, 3.0, INF, -INF]) if d.chance(1, 5) else float(d.smallint(3)) for _ in range(4)]
        return [d.choice(pool) for _ in range(n)]
    s = d.choice([1.0, 10.0])
    return [d.finite(10) * s for _ in range(n)]


def pvalue(z):
    if z < 1.0:
        s = sum(math.exp(-((2 * v - 1) ** 2) * math.pi ** 2 / (8 * z * z)) for v in range(1, 60)) if z > 0.02 else 0.0
        return 1.0 - math.sqrt(2 * math.pi) / z * s if z else 1.0
    return 2 * sum((-1) ** (k - 1) * math.exp(-2.0 * k * k * z * z) for k in range(1, 60))


def ks_ref(x, y):
    x, y = [v for v in x if v == v], [v for v in y if v == v]
    if sorted(x) == sorted(y):
        return 1.0
    if not x or not y:
        return 0.0
    D_ = max(abs(sum(1 for v in x if v <= p) / float(len(x)) - sum(1 for v in y if v <= p) / float(len(y))) for p in x + y)
    en = math.sqrt(len(x) * len(y) / float(len(x) + len(y)))
    return pvalue((en + 0.12 + 0.11 / en) * D_)


def ks(d):
    ties = d.bool()
    n = d.choice([0, 1, 2]) if d.chance(1, 5) else d.int(1, 40)
    m = d.choice([0, 1, 2, n]) if d.chance(1, 4) else d.int(1, 40)
    x, y = sample(d, n, ties), sample(d, m, ties)
    if d.chance(1, 4):
        s = d.choice([0.3, 2.0, -1.0])
        y = [v + s for v in y]
    if d.chance(1, 8):
        y = d.shuffle(list(x))
    if d.chance(1, 8):                                   # the same distribution with each value repeated
        y = d.shuffle(list(x) * d.int(2, 3))
    for s in (x, y):
        if d.chance(1, 8):
            s.append(NAN)
    check_call(d, "stat.test.kolmogorov", [AD, AD], D, [x, y], ks_ref, abs_=1e-9, nontrivial=len(x) + len(y) > 2)
    check_call(d, "stat.test.kolmogorov", [AD, AD], D, [y, x], ks_ref, abs_=1e-9)


def fields(d, fs):
    return d.shuffle([{"name": n, "type": t} for n, t in fs] + ([{"name": "mine", "type": "string"}] if d.bool() else []))


def trigger(d):
    rec = {"type": "record", "name": "Hist", "fields": fields(d, [(n, I) for n in ("numEvents", "numRuns", "currentRun", "longestRun")])}
    st = {f["name"]: ("x" if f["name"] == "mine" else 0) for f in rec["fields"]}
    if d.chance(1, 4):
        for k in st:
            if k != "mine":
                st[k] = d.choice([0, 1, 2, 7, 7, 7, 7, 7, -1])
        check_call(d, "stat.change.updateTrigger", ["boolean", rec], rec, [d.bool(), st], lambda p, s: step(p, s))
        return
    seen = []
    for _ in range(d.int(1, 14)):
        p = d.chance(2, 3)
        seen.append(p)
        runs = "".join("1" if x else "0" for x in seen).split("0")
        want = dict(st, numEvents=sum(seen), numRuns=sum(1 for r in runs if r), currentRun=len(runs[-1]), longestRun=max(len(r) for r in runs))
        got = check_call(d, "stat.change.updateTrigger", ["boolean", rec], rec, [p, st], lambda *a: want)
        st = got[1]


def step(p, s):
    if min(s[k] for k in ("numEvents", "numRuns", "currentRun", "longestRun")) < 0:
        raise Err(37000)
    if not p:
        return dict(s, currentRun=0)
    cur = s["currentRun"] + 1
    return dict(s, numEvents=s["numEvents"] + 1, numRuns=s["numRuns"] + (1 if s["currentRun"] == 0 else 0), currentRun=cur, longestRun=max(cur, s["longestRun"]))


def zvalue(d):
    two = d.bool()
    fs = [("mean", D), ("variance", D)] + ([("count", D)] if two or d.bool() else [])
    rec = {"type": "record", "name": "MV", "fields": fields(d, fs)}
    st = {"mean": num(d), "variance": d.choice([0.0, -1.0, INF, NAN]) if d.chance(1, 5) else abs(d.finite(10))}
    if len(fs) == 3:
        st["count"] = d.choice([0.0, 1.0, 0.5, -1.0, INF, NAN]) if d.chance(1, 3) else d.int(2, 4000) / 2.0
    if any(f["name"] == "mine" for f in rec["fields"]):
        st["mine"] = "x"
    x = st["mean"] if d.chance(1, 8) else num(d)
    unb = d.bool()

    def ref(*a):
        s = math.sqrt(st["variance"]) if st["variance"] >= 0 else NAN
        z = div(x - st["mean"], s)
        if not two or not unb:
            return z
        r = div(st["count"], st["count"] - 1.0)
        return z * (math.sqrt(r) if r >= 0 else NAN)
    check_call(d, "stat.change.zValue", [D, rec] + (["boolean"] if two else []), D, [x, st] + ([unb] if two else []), ref)


def cusum(d):
    reset = d.choice([0.0, -1.0, 5.0, num(d)])
    last = reset
    for _ in range(d.int(1, 8)):
        llr = num(d)
        prev = last
        got = check_call(d, "stat.change.updateCUSUM", [D, D, D], D, [llr, last, reset], lambda *a: (llr + prev) if llr + prev > reset else reset)
        last = got[1]


SUBS = [Sub("kolmogorov", ks, 300, 6000), Sub("trigger", trigger, 150, 4000), Sub("zValue", zvalue, 300, 8000), Sub("cusum", cusum, 150, 3000)] \
    + resid.subs("stat.test.", (38010, 38020, 38030, 38060), "dof", True)
