"""run.py PROPERTY quick|thorough [--replay FILE] [--sub NAME] [--cases N] [--shards N]

Parent: splits the cases over worker processes, collects results, writes evidence/<id>.json,
prints VIOLATION / KNOWN-FINDING lines. Worker: --worker K/N OUT.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")

import pbt


class Sub(object):
    def __init__(self, name, fn, quick, thorough=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20


def load(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module(f[:-3])
    raise SystemExit("no check module for " + pid)


def known(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as fp:
            for e in json.load(fp)["findings"]:
                if e["property"] == pid and e.get("status", "known") == "known":
                    out[e["key"]] = e
    return out


def keyhash(s):
    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def case_rng(seed, sub, i):
    h = hashlib.blake2b(("%d/%s/%d" % (seed, sub, i)).encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, "big"))


def worker(mod, pid, tier, seed, shard, nshards, outpath, only, cases, factor, until=None):
    pbt.arm()
    kf = known(pid)
    res = {"evaluations": 0, "discarded": 0, "keys": [], "labels": {}, "samples": [], "persub": {}, "violation": None,
           "known_hits": {}, "harness": None}
    keys = set()
    persubkeys = {}

    def flush():
        res["keys"] = sorted(keys)
        with open(outpath + ".tmp", "w") as fp:
            json.dump(res, fp)
        os.rename(outpath + ".tmp", outpath)

    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        n = cases if cases else (sub.quick if tier == "quick" else sub.thorough)
        n = int(n * factor) if factor != 1 else n
        if not cases:
            n = int(n * getattr(mod, "FACTOR", {"quick": 3, "thorough": 6}).get(tier, 1))
        st = res["persub"].setdefault(sub.name, {"cases": 0, "nontrivial": 0, "discarded": 0, "cpu_s": 0})
        t0 = time.process_time()
        off = int(keyhash(sub.name), 16) % nshards
        for i in range(n if until is None else min(n, until + 1)):
            if (i + off) % nshards != shard:
                continue
            d = pbt.Draw(rng=case_rng(seed, sub.name, i))
            status, msg, key = pbt.run_one(sub.fn, d)
            if status == "harness":
                res["harness"] = "sub %s case %d\n%s" % (sub.name, i, msg)
                flush()
                return 3
            if status == "discard":
                st["discarded"] += 1
                res["discarded"] += 1
                continue
            st["cases"] += 1
            res["evaluations"] += d.evals
            for l in d.labels:
                l = sub.name + ": " + l
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if status == "fail":
                if key is not None and key in kf:
                    res["known_hits"][key] = res["known_hits"].get(key, 0) + 1
                    continue
                if getattr(mod, "CONFIRM", True) and not confirmed(sys.argv, pid, sub.name, d.log, i, seed, outpath):
                    res["labels"]["not a verdict: failed only under the JIT compiler"] = res["labels"].get("not a verdict: failed only under the JIT compiler", 0) + 1
                    continue
                best, tries = pbt.shrink(sub.fn, d.log, key)
                d2 = pbt.Draw(prefix=best)
                s2, m2, k2 = pbt.run_one(sub.fn, d2)
                if s2 != "fail":
                    best, d2, m2, k2 = d.log, d, msg, key
                res["violation"] = {"property": pid, "sub": sub.name, "case": i, "seed": seed, "choices": best,
                                    "shrink_tries": tries, "message": m2, "key": k2,
                                    "case_description": pbt.jsonable(d2.notes)}
                flush()
                return 1
            if d.nt is not None:
                h = keyhash(sub.name + "|" + d.nt)
                if h not in keys:
                    keys.add(h)
                    st["nontrivial"] += 1
                    if len(res["samples"]) < 3 or (st["nontrivial"] == 1 and len(res["samples"]) < 12):
                        res["samples"].append({"sub": sub.name, "case": i, "input": pbt.show(d.notes if d.notes else d.nt, 600)})
        st["cpu_s"] = round(time.process_time() - t0, 2)
    flush()
    return 0


def confirmed(argv, pid, sub, log, case, seed, outpath):
    """Does the failure occur without PyPy's JIT compiler, which miscompiles some comparisons of NaN (DESIGN.md)?
    First the case alone in a fresh interpreter, then with the cases that came before it in this shard."""
    if os.environ.get("VERIF_CONFIRMING"):
        return True
    rp = outpath + ".confirm"
    with open(rp, "w") as fp:
        json.dump({"sub": sub, "choices": log}, fp)
    env = dict(os.environ, VERIF_CONFIRMING="1")
    cmd = [sys.executable, "--jit", "off", "-W", "ignore", os.path.join(HERE, "runner.py"), pid]
    null = {"stdin": subprocess.DEVNULL, "stdout": subprocess.DEVNULL, "stderr": subprocess.DEVNULL}
    try:
        if subprocess.run(cmd + ["--replay", rp], env=env, timeout=120, **null).returncode == 1:
            return True
        args = argv[argv.index("--worker"):]
        args[args.index("--out") + 1] = outpath + ".again"
        cmd += [argv[2]] + [a for a in args] + ["--sub", sub, "--until", str(case)]
        return subprocess.run(cmd, env=env, timeout=240, **null).returncode == 1
    except subprocess.TimeoutExpired:
        return True             # could not be ruled out


def replay(mod, pid, path):
    pbt.arm()
    with open(path) as fp:
        r = json.load(fp)
    for sub in mod.SUBS:
        if sub.name == r["sub"]:
            d = pbt.Draw(prefix=r["choices"])
            status, msg, key = pbt.run_one(sub.fn, d)
            print("replay %s/%s: %s" % (pid, sub.name, status))
            print("input: " + pbt.show(d.notes, 6000))
            if msg:
                print(msg)
            if status == "fail" and key not in known(pid):
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            return 0 if status in ("ok", "discard", "fail") else 3
    print("no sub-check named " + r["sub"])
    return 3


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--factor", type=float, default=1)
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--until", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))

    if a.worker or a.replay:
        mod = load(a.pid)
        if a.replay:
            sys.exit(replay(mod, a.pid, a.replay))
        k, n = a.worker.split("/")
        rc = worker(mod, a.pid, a.tier, seed, int(k), int(n), a.out, a.sub, a.cases, a.factor, a.until)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)

    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    home = os.path.join(work, "home")
    os.makedirs(os.path.join(home, ".pfa"))
    env = dict(os.environ, HOME=home, VERIF_WORK=work, PYTHONPATH=REPO, VERIF_SEED=str(seed))
    procs = []
    commands = []
    rc = 0
    try:
        for k in range(a.shards):
            out = os.path.join(work, "out%d.json" % k)
            log = open(os.path.join(work, "log%d" % k), "wb")
            cmd = [sys.executable, "-W", "ignore", os.path.join(HERE, "runner.py"), a.pid, a.tier, "--worker", "%d/%d" % (k, a.shards), "--out", out]
            if a.sub:
                for s in a.sub:
                    cmd += ["--sub", s]
            if a.cases:
                cmd += ["--cases", str(a.cases)]
            if a.factor != 1:
                cmd += ["--factor", str(a.factor)]
            procs.append((subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=work,
                                           start_new_session=True), out, os.path.join(work, "log%d" % k)))
            commands.append((cmd, 0))
        stop = False
        deadline = t0 + float(os.environ.get("VERIF_WALL", "840" if a.tier == "quick" else "100000"))
        timed_out = False

        def crashed(k):
            return not stop and not timed_out and procs[k][0].poll() in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS) and not os.path.exists(procs[k][1]) and commands[k][1] < 3
        while any(p.poll() is None or crashed(k) for k, (p, _, _) in enumerate(procs)):
            time.sleep(0.05)
            for k, (p, out, logp) in enumerate(procs):
                # an interpreter that crashed says nothing about titus: run that shard again
                if crashed(k):
                    commands[k] = (commands[k][0], commands[k][1] + 1)
                    print("(shard %d: the interpreter crashed with signal %d; again)" % (k, -p.poll()))
                    log = open(logp, "ab")
                    procs[k] = (subprocess.Popen(commands[k][0], env=dict(env, VERIF_RETRY=str(commands[k][1])), stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                                 cwd=work, start_new_session=True), out, logp)
            if any(p.poll() in (1, 3) for p, _, _ in procs) and not stop:
                stop = True
                # let the other shards finish a shrink in progress for a moment, then end them
                t1 = time.time()
                while time.time() - t1 < 1 and any(p.poll() is None for p, _, _ in procs):
                    time.sleep(0.05)
                for p, _, _ in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
            if time.time() > deadline:
                timed_out = True
                for p, _, _ in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
        agg = {"evaluations": 0, "discarded": 0, "labels": {}, "persub": {}, "samples": [], "known_hits": {}}
        keys = set()
        violations = []
        harness = []
        for p, out, logp in procs:
            p.wait()
            if os.path.exists(out):
                with open(out) as fp:
                    r = json.load(fp)
            else:
                if p.returncode == -9 and (stop or timed_out):
                    continue
                with open(logp, "rb") as fp:
                    harness.append("worker ended with %s\n%s" % (p.returncode, fp.read()[-4000:].decode("utf-8", "replace")))
                continue
            agg["evaluations"] += r["evaluations"]
            agg["discarded"] += r["discarded"]
            for kk in ("labels", "known_hits"):
                for x, c in r[kk].items():
                    agg[kk][x] = agg[kk].get(x, 0) + c
            for x, c in r["persub"].items():
                s = agg["persub"].setdefault(x, {"cases": 0, "nontrivial": 0, "discarded": 0, "cpu_s": 0})
                for y in s:
                    s[y] = round(s[y] + c[y], 2)
            agg["samples"].extend(r["samples"])
            keys.update(r["keys"])
            if r["violation"]:
                violations.append(r["violation"])
            if r["harness"]:
                harness.append(r["harness"])
        if timed_out and not violations:
            harness.append("wall-clock budget used up: inconclusive")

        kf = known(a.pid)
        if not harness or violations:
            if kf:
                mod = load(a.pid)
                probes = getattr(mod, "PROBES", {})
                os.environ["HOME"] = home
                for key, e in sorted(kf.items()):
                    still = agg["known_hits"].get(key, 0) > 0
                    if not still and key in probes:
                        try:
                            still = bool(probes[key]())
                        except Exception:
                            traceback.print_exc()
                    if still:
                        print("KNOWN-FINDING: property=%s %s" % (a.pid, e["what"]))
        spl = []
        seen = {}
        for s in agg["samples"]:
            if seen.get(s["sub"], 0) < 1 and len(spl) < 40:
                seen[s["sub"]] = seen.get(s["sub"], 0) + 1
                spl.append(s)
        if a.v:
            for x, c in sorted(agg["persub"].items()):
                print("  %-40s %s" % (x, c))
            for x, c in sorted(agg["labels"].items()):
                print("     label %-50s %d" % (x, c))
        ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
              "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(keys),
                           "rule": None, "samples": spl, "discarded": agg["discarded"], "per_subcheck": agg["persub"],
                           "labels": agg["labels"], "known_finding_hits": agg["known_hits"]},
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        path = os.path.join(VERIF, "checks")
        rule, assumptions = rule_of(a.pid)
        ev["coverage"]["rule"] = rule
        ev["assumptions"] = assumptions
        if not (a.sub or a.cases):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", a.pid + ".json.tmp"), "w") as fp:
                json.dump(ev, fp, indent=1)
                fp.write("\n")
            os.rename(os.path.join(VERIF, "evidence", a.pid + ".json.tmp"), os.path.join(VERIF, "evidence", a.pid + ".json"))
        if violations:
            v = min(violations, key=lambda v: (len(v["choices"]), v["sub"]))
            os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (a.pid, "".join(c if c.isalnum() or c in "._-" else "_" for c in v["sub"])))
            with open(rp, "w") as fp:
                json.dump(v, fp, indent=1)
            print("sub-check: %s   case %s   choices %s" % (v["sub"], v["case"], len(v["choices"])))
            print("input: " + pbt.show(v["case_description"], 3000))
            print("failure: " + pbt.show(v["message"], 3000))
            print("VIOLATION property=%s replay=%s" % (a.pid, rp))
            rc = 1
        elif harness:
            print("HARNESS ERROR (not a verdict): " + harness[0])
            rc = 3
        else:
            print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
                  % (a.pid, a.tier, seed, agg["evaluations"], len(keys), time.time() - t0))
            rc = 0
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def rule_of(pid):
    """RULE and ASSUMPTIONS literals of the check module, without importing titus in the parent"""
    import ast
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            with open(os.path.join(VERIF, "checks", f), encoding="utf-8") as fp:
                tree = ast.parse(fp.read())
            got = {"RULE": "", "ASSUMPTIONS": []}
            for node in tree.body:
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in got:
                    got[node.targets[0].id] = ast.literal_eval(node.value)
            return got["RULE"], got["ASSUMPTIONS"]
    return "", []


if __name__ == "__main__":
    if "runner" not in sys.modules:
        sys.modules["runner"] = sys.modules["__main__"]
    main()
