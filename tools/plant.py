#!/usr/bin/python3
"""Helper for planted bugs: plant(id, prop, edits, demo, needs, breaks) writes seeded/<id>/ and confirms it in a scratch copy of /repo:
the tests' stable set passes, the demonstration fails with it and passes without it; then says whether the property's quick check reports it."""
import json, os, shutil, subprocess, sys

WT = "/tmp/plantwt"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nH=$(mktemp -d); mkdir "$H/.pfa"\ntrap \'rm -rf "$H"\' EXIT\nHOME="$H" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py" </dev/null\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def fresh():
    if not os.path.exists(WT):
        sh("cp -a /repo " + WT)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", WT)


def plant(id, prop, edits, demo, needs, breaks, tests=True, check=True):
    fresh()
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            print(id, "EDIT DOES NOT APPLY", f, s.count(old))
            return
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    dst = os.path.join(V, "seeded", id)
    os.makedirs(dst, exist_ok=True)
    rc, diff = sh("git diff -U8", WT)
    open(os.path.join(dst, "patch.diff"), "w").write(diff)
    open(os.path.join(dst, "demo.py"), "w").write(demo)
    open(os.path.join(dst, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    verify(id, tests, check)


def verify(id, tests=True, check=True, seed="1"):
    fresh()
    dst = os.path.join(V, "seeded", id)
    meta = json.load(open(os.path.join(dst, "meta.json")))
    ok = True
    rc, out = sh(dst + "/demo.sh", WT)
    if rc != 0:
        print(id, "DEMO FAILS ON THE UNCHANGED TREE", out[-1500:])
        ok = False
    rc, out = sh("git apply " + dst + "/patch.diff", WT)
    if rc != 0:
        print(id, "PATCH DOES NOT APPLY", out)
        return
    rc, out = sh(dst + "/demo.sh", WT)
    if rc == 0:
        print(id, "DEMO PASSES WITH THE PATCH")
        ok = False
    if tests:
        t = ". /opt/vp/env.sh; W=$(mktemp -d); PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore -o python_files='test*.py' -o junit_family=xunit2 --junitxml=$W/junit.xml test </dev/null >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py /tmp/plant.json junit:$W/junit.xml >/dev/null; rm -rf $W" % WT
        sh("bash -c '%s'" % t.replace("'", "'\\''"), WT)
        rc, out = sh("python3 %s/tools/stable.py /tmp/plant.json" % V)
        if rc:
            print(id, "TESTS FAIL", out[:600])
            ok = False
    caught = None
    if check:
        rc, out = sh("./run.sh %s quick" % meta["property"], V, dict(os.environ, VERIF_REPO=WT, VERIF_SEED=seed, VERIF_TIER="quick"))
        caught = rc == 1 and ("VIOLATION property=" + meta["property"]) in out
        if not caught and rc:
            print(out[-800:])
    sh("git checkout -q -f .", WT)
    print(id, meta["property"], "ok" if ok else "NOT OK", {None: "", True: "caught", False: "MISSED"}[caught], flush=True)


if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
        verify(i, tests=False)
