"""mutate.py OUT.jsonl SEED COUNT [file ...]: how much of what the tests let through do the checks see? (development tool)

Makes COUNT random one-place changes to laurgao/simpy in scratch copies under /tmp, drops those that the stable tests notice, and runs the
quick checks with a small time cap on the others until one reports a violation.  One line of OUT per mutant that passes the tests.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
S = "src/simpy/"
ORDER = {
    "expr.py": "C01 C03 C04 C02 C18 C17 C15 C10 C19 C07 C09 C16 C05 C08 C11 C20 C21 C22 C12 C23 C13 C14 C06",
    "regex.py": "C20 C21 C08 C23 C13 C11 C06 C05",
    "transforms.py": "C13 C11 C14 C12 C22 C06 C05",
    "integration.py": "C11 C12 C14 C13 C06 C05",
    "simplify/simplify.py": "C08 C23 C05 C13 C11 C06 C04",
    "simplify/product_to_sum.py": "C08 C23 C05 C13 C11 C06",
    "polynomial.py": "C22 C13 C11 C14 C15 C06",
    "linalg.py": "C22 C13 C11 C06",
    "combinatorics.py": "C22 C07 C01 C06",
    "utils.py": "C15 C13 C11 C18 C21 C06 C05",
    "latex.py": "C19",
    "integral_table.py": "C13 C11 C14",
}
JOBS = int(os.environ.get("JOBS", "4"))
CAP = os.environ.get("MCAP", "12")
stable = len(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def spots(src):
    """(start, end, new text, what) of every change we know how to make"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = pos(n)
        out.append((a, b, new, what, n.lineno))

    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
           ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(n.body[0])
    annotations = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                annotations.update(ast.walk(getattr(n, f)))
    for n in ast.walk(tree):
        if n in annotations:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "compare")
        if isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            add(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "and/or")
            op = " or " if isinstance(n.op, ast.Or) else " and "
            for i in range(len(n.values)):
                add(n, "(" + op.join("(%s)" % text(v) for j, v in enumerate(n.values) if j != i) + ")", "drop operand %d" % i)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "arithmetic")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "constant")
            if n.value > 1:
                add(n, str(n.value - 1), "constant")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "boolean")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % text(n.operand), "drop unary")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "False", "condition false")
            if not isinstance(n, ast.While):
                add(n.test, "True", "condition true")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n not in doc and n.lineno == n.end_lineno:
            add(n, "pass", "drop statement")
        if isinstance(n, ast.Continue):
            add(n, "pass", "drop continue")
        if isinstance(n, ast.Break):
            add(n, "pass", "drop break")
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("all", "any"):
            add(n.func, "any" if n.func.id == "all" else "all", "all/any")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("simplify", "expand", "factor", "copy"):
            add(n, text(n.func.value), "drop ." + n.func.attr)
    return out


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(job):
    k, f, (a, b, new, what, line) = job
    d = "/tmp/mut-%d-%d" % (os.getpid(), k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("MREPO", "/repo"), d, symlinks=True)
    try:
        p = os.path.join(d, S, f)
        raw = open(p, "rb").read()
        mutated = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(mutated)
        except SyntaxError:
            return None
        open(p, "wb").write(mutated)
        env = {"PYTHONPATH": os.path.join(d, "src")}
        rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], d, env, 150)
        m = re.search(r"(\d+) passed", o)
        if rc != 0 or not m or int(m.group(1)) < stable:
            return None
        _, diff = sh(["git", "diff", "-U1"], d, {}, 60)
        rec = {"k": k, "file": f, "line": line, "what": what, "diff": diff, "killed": None, "detail": ""}
        for c in ORDER[f].split():
            rc, o = sh([PY, "check.py", c, "--tier", "quick"], HERE,
                       {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_NOSHRINK": "1", "VERIF_CAP": CAP, "VERIF_WORKERS": str(max(1, 8 // JOBS)),
                        "VERIF_EVIDENCE": d + "/ev", "VERIF_REPLAYS": d + "/rp"}, 400)
            if rc == 1:
                rec["killed"] = c
                rec["detail"] = (re.findall(r"mechanism .*", o) or [""])[0][:200]
                break
            if rc != 0:
                rec["detail"] += "%s exit %d; " % (c, rc)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
    files = sys.argv[4:] or list(ORDER)
    repo = os.environ.get("MREPO", "/repo")
    rng = random.Random(seed)
    pool = []
    for f in files:
        src = open(os.path.join(repo, S, f)).read()
        pool += [(f, s) for s in spots(src)]
    rng.shuffle(pool)
    jobs = [(i, f, s) for i, (f, s) in enumerate(pool[:count])]
    print(len(pool), "places;", len(jobs), "tried", flush=True)
    n = kept = killed = 0
    with ThreadPoolExecutor(JOBS) as ex, open(out, "a") as fo:
        for r in ex.map(one, jobs):
            n += 1
            if r is None:
                continue
            kept += 1
            killed += r["killed"] is not None
            fo.write(json.dumps(r) + "\n")
            fo.flush()
            print("%d/%d tried, %d pass the tests, %d caught | %s:%d %s -> %s" % (n, len(jobs), kept, killed, r["file"], r["line"], r["what"], r["killed"]), flush=True)


main()
