"""plant.py SPEC.py [id ...]: make, confirm and store planted bugs (development tool; no check uses it).

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...], demo=python text, needs, breaks)].
For each: a scratch copy of /repo under /tmp is changed, the stable tests and the demonstration are run there (and the
demonstration on /repo), the quick check of its property is run against the copy, and seeded/<id>/ is written.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(b):
    bid = b["id"]
    d = "/tmp/plant-" + bid
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        edits = b["edits"] if "file" not in b else [(b["file"], o, n) for o, n in b["edits"]]
        for f, o, n in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(o) != 1:
                return bid, "edit of %s: the old text occurs %d times" % (f, s.count(o))
            open(p, "w").write(s.replace(o, n))
        _, diff = run(["git", "diff"], d)
        # changes lines of the original repository?
        base = run(["git", "rev-list", "--max-parents=0", "HEAD"], d)[1].strip()
        rc, out = run(["git", "blame", "-s", "HEAD", "--"] + [edits[0][0]], d)
        env = {"PYTHONPATH": os.path.join(d, "src")}
        rep = os.path.join(d, "junit.xml")
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
             "--junitxml=" + rep, "tests"], d, env)
        if not os.path.exists(rep):
            return bid, "REJECTED the tests do not even start"
        passed = set()
        for tc in ET.parse(rep).iter("testcase"):
            if not list(tc.iter("failure")) and not list(tc.iter("error")) and not list(tc.iter("skipped")):
                passed.add("%s::%s" % (tc.get("classname"), tc.get("name")))
        os.remove(rep)
        missing = stable - passed
        sd = os.path.join(HERE, "seeded", bid)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(b["demo"].strip("\n") + "\n")
        open(os.path.join(sd, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        c0, o0 = run(["bash", os.path.join(sd, "demo.sh")], "/repo", timeout=300)
        c1, o1 = run(["bash", os.path.join(sd, "demo.sh")], d, env, timeout=300)
        msg = []
        if missing:
            msg.append("TESTS FAIL %s" % sorted(missing)[:4])
        if c0 != 0:
            msg.append("DEMO FAILS CLEAN: " + o0[-300:])
        if c1 == 0:
            msg.append("DEMO PASSES PATCHED")
        if msg:
            shutil.rmtree(sd)
            return bid, "REJECTED " + "; ".join(msg)
        res = []
        for p in [b["property"]] + b.get("also", []):
            c, o = run([PY, "check.py", p, "--tier", "quick"], HERE,
                       {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_NOSHRINK": "1"})
            m = re.findall(r"mechanism .*", o)
            res.append("%s exit %d %s" % (p, c, (m[0][:230] if m else o.strip().splitlines()[-1][:200])))
        return bid, "ok | " + " | ".join(res) + " | demo: " + (o1.strip().splitlines() or ["?"])[-1][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True)


for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    print("%s: %s" % one(b), flush=True)
