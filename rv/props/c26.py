"""C26 watching an integration changes nothing and shows what happened"""
import contextlib
import io
import os
import random
import shutil
import sys
import tempfile
import time
import warnings
from fractions import Fraction

from .. import gen, itree
from ..common import *
from ..core import Violation
from . import c14
from .c11 import leaks
import simpy
from simpy import integration as I
from simpy.debug import logger as L
from simpy.debug import tree as D
from simpy.debug import utils as U

ID = "C26"
RULE = (
    "a case is an integral asked for plainly and again with debug=True (the debugger replaced by a counter, the output captured), whose answers "
    "must agree and whose printed tree is compared node by node with the monitor's own walk over the search tree; or several integrals with a "
    "Logger attached, whose records, order and dump file are compared with what was asked; or the structural form of an expression; it counts when "
    "such a comparison was made; distinct by integrand"
)
COUNT = {"quick": 1500, "thorough": 15000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 600, "thorough": 2500}
ASSUMPTIONS = ["integrals on which more than 1.5 s were spent are not compared: the library stops its search at 2 s"]


def make(rng, i, tier):
    k = ("debug", "debug", "debug", "log", "repr", "repr")[i % 6]
    if k == "debug":
        c = c14.make(rng, rng.randrange(4), tier)
        return {"k": k, "r": c["r"], "s": c["s"], "bf": rng.random() < 0.3, "v": c.get("v", "x")}
    if k == "log":
        cs = [c14.make(rng, rng.randrange(4), tier) for _ in range(rng.randint(2, 4))]
        return {"k": k, "rs": [c["r"] for c in cs], "s": cs[0]["s"]}
    return {"k": k, "r": gen.recipe(rng, rng.choice(["full", "alg", "rad", "trig"]), rng.choice([1, 2, 3])), "s": rng.getrandbits(40)}


# ------------------------------------------------ the monitor's own reading of a search tree


def solved(n):
    if n.type == "SOLUTION":
        return True
    ks = n.children
    if not ks:
        return False
    return any(solved(k) for k in ks) if n.type == "OR" else n.type != "FAILURE" and all(solved(k) for k in ks)


def failed(n):
    if n.type == "FAILURE":
        return True
    ks = n.children
    if not ks:
        return False
    return all(failed(k) for k in ks) if n.type == "OR" else any(failed(k) for k in ks)


def listing(n, stale, failures, depth=0, above=False):
    """(depth, node) of every node that is shown, in order; above: an ancestor is finished"""
    done = solved(n) or failed(n)
    if not stale and not done and above or not failures and failed(n):
        return []
    out = [(depth, n)]
    for k in n.children:
        out += listing(k, stale, failures, depth + 1, above or done)
    return out


def compare(text, root, stale, failures, what):
    lines = [ln for ln in text.split("\n") if ln.strip()]
    want = listing(root, stale, failures)
    if len(lines) != len(want):
        raise Violation("tree-lines", "%s: the tree has %d nodes to show, %d lines were printed" % (what, len(want), len(lines)))
    for ln, (d, n) in zip(lines, want):
        if str(d) not in ln[:8]:
            raise Violation("tree-depth", "%s: %r is for a node at depth %d" % (what, ln, d))
        if not n.is_filler and not n.var.name.startswith("u_"):
            t = repr(n.expr)
            if t[:40] not in ln:
                raise Violation("tree-expression", "%s: %r is for the node %s" % (what, ln, t))
        if type(n.transform).__name__ not in ln:
            raise Violation("tree-transform", "%s: %r is for a node made by %s" % (what, ln, type(n.transform).__name__))
    return len(lines)


def same(a, b):
    """two search trees that took the same way (the order of branches may depend on the clock)"""
    return (type(a.transform) is type(b.transform) and a.type == b.type and a.is_filler == b.is_filler and len(a.children) == len(b.children)
            and (a.is_filler or tree_size(a.expr) == tree_size(b.expr)) and (a.solution is None) == (b.solution is None)
            and all(same(s, t) for s, t in zip(a.children, b.children)))


def differing(a, b):
    """the first line in which two texts differ"""
    for s, t in zip(a.split("\n"), b.split("\n")):
        if s != t:
            return s.strip(), t.strip()
    return a[-60:], b[-60:]


@contextlib.contextmanager
def stage(stop):
    """output captured, the debugger replaced by a counter"""
    out = io.StringIO()
    old = sys.breakpointhook
    sys.breakpointhook = lambda *a, **k: stop.append(1)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield out
    finally:
        sys.breakpointhook = old


def clean(r, v, seed):
    r = gen.tup(r)
    pts = itree.spoints(seed, sorted(gen.variables(r) | {v}), 6, v)
    if not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 60 or blowup(e) > 300:
        return None
    if any(type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat" and abs(t.exponent.value) > 10 for t in nodes(e)):
        return None
    return e


def run(case, obs):
    return globals()["run_" + case["k"]](case, obs)


def run_debug(case, obs):
    v = case["v"]
    e = clean(case["r"], v, case["s"])
    if e is None:
        return None
    x = X.Symbol(v)
    kw = {"breadth_first": True} if case["bf"] else {}
    what = "integrate(%s, %s%s)" % (srepr(e), v, ", breadth_first=True" if kw else "")
    before = struct(e)

    def ask(**more):
        stops = []
        t0 = time.process_time()
        with itree.watching() as W, stage(stops) as out:
            a = call(what[:-1] + "".join(", %s=%r" % t for t in more.items()) + ")", lambda: simpy.integrate(e, x, **kw, **more))
        slow = time.process_time() - t0 > 1.5 or any(t > 1.5 for _, t, _ in W.roots)
        return a, slow, W.roots, len(stops), out.getvalue()

    a, slow, _, _, text = ask()
    if slow:
        obs.add("slow")
        return None
    if text.strip():
        raise Violation("printed", "%s printed %r" % (what, text[:200]))
    b, slow, roots, stops, text = ask(debug=True)
    if slow:
        obs.add("slow")
        return None
    if (a is None) != (b is None) or a is not None and struct(a) != struct(b):
        raise Violation("answer-changed", "%s = %s, but with debug=True it is %s" % (what, srepr(a), srepr(b)))
    if struct(e) != before:
        raise Violation("mutated", what + " changed its argument")
    if stops != 1:
        raise Violation("debugger", "%s with debug=True stopped %d times in the debugger" % (what, stops))
    if not roots:
        return None
    root = roots[-1][2]
    n = compare(text, root, a is None, a is None, what + " with debug=True")
    if a is not None and repr(root.solution)[:40] not in text:
        raise Violation("tree-solution", "%s with debug=True does not show the solution %s" % (what, srepr(root.solution)))
    obs.add("trees_printed")
    obs.add("lines_compared", n)
    if not solved(root) and a is not None or failed(root) and a is not None:
        raise Violation("search-state", "%s = %s, but its search tree is not solved" % (what, srepr(a)))
    if a is None and not failed(root):
        raise Violation("gave-up", "%s gave up although not everything it could try had failed" % what)
    obs.add("answered" if a is not None else "exhausted")
    # every way of printing
    s = [(m, tuple(struct(t.expr) for _, t in listing(m, True, True))) for m in [root]]
    for st in (True, False):
        for fa in (True, False):
            for so in (True, False):
                lines = []
                call("print_tree(%s, %r, %r, %r)" % (what, st, fa, so), lambda: D.print_tree(root, st, fa, so, func=lines.append))
                compare("\n".join(lines), root, st, fa, "print_tree(%s, show_stale=%r, show_failures=%r, show_solution=%r)" % (what, st, fa, so))
    for m, was in s:
        if tuple(struct(t.expr) for _, t in listing(m, True, True)) != was:
            raise Violation("tree-mutated", "printing the search tree of %s changed it" % what)
    if case["s"] % 3 == 0:
        # the same question once more: a tree of its own, printed alike, whatever was printed before
        _, slow, roots2, _, text2 = ask(debug=True)
        if not slow and roots2 and same(root, roots2[-1][2]):
            obs.add("printed_twice")
            if text2 != text:
                raise Violation("printed-differently", "%s with debug=True prints %r the first time and %r the second"
                                % ((what,) + differing(text, text2)))
    obs.max("max_nodes", len(listing(root, True, True)))
    return (gen.show(gen.tup(case["r"])), v, case["bf"])


def run_log(case, obs):
    es = []
    for r in case["rs"]:
        e = clean(r, "x", case["s"])
        if e is not None and repr(e) not in [repr(t) for t in es]:
            es.append(e)
    if len(es) < 2:
        return None
    x = X.Symbol("x")
    plain = []
    with stage([]) as out:
        for e in es:
            t0 = time.process_time()
            plain.append(call("integrate(%s, x)" % srepr(e), lambda: simpy.integrate(e, x)))
            if time.process_time() - t0 > 1.5:
                return None
    old = I.Integration.__dict__.get("logger")
    log = L.Logger()
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="c26-")
    try:
        I.Integration.logger = log
        t0 = time.time()
        logged = []
        with stage([]) as out:
            for e in es:
                logged.append(call("integrate(%s, x) with a Logger" % srepr(e), lambda: simpy.integrate(e, x)))
        spent = time.time() - t0
        os.chdir(scratch)
        with stage([]):
            call("Logger.dump()", log.dump)
        made = sorted(os.listdir(scratch))
        if made != ["integration_log.txt"]:
            raise Violation("dump", "Logger.dump() made %s" % made)
        with open("integration_log.txt") as f:
            dump = f.read()
    finally:
        I.Integration.logger = old
        os.chdir(here)
        shutil.rmtree(scratch)
    if spent > 1.5:
        obs.add("slow")
        return None
    for e, a, b in zip(es, plain, logged):
        if (a is None) != (b is None) or a is not None and struct(a) != struct(b):
            raise Violation("answer-changed", "integrate(%s, x) = %s, but with a Logger it is %s" % (srepr(e), srepr(a), srepr(b)))
    # (integrations inside integrations may be logged too)
    data = log.data
    for e in es:
        d = data.get(str(e))
        if d is None:
            raise Violation("not-logged", "integrate(%s, x) left no record; there are %s" % (srepr(e), sorted(data)))
        if struct(d.expr) != struct(e) or not 0 <= d.time_spent <= spent:
            raise Violation("record", "the record of integrate(%s, x) is %s, %r s of %r s" % (srepr(e), srepr(d.expr), d.time_spent, spent))
    times = [d.time_spent for d in data.values()]
    if times != sorted(times, reverse=True):
        raise Violation("order", "after dump() the records are not sorted by time: %s" % times)
    lines = dump.split("\n")
    if lines[:len(data)] != ["%s: %s" % (k, d.time_spent) for k, d in data.items()]:
        raise Violation("dump", "the dump of %s begins %s" % (list(data), lines[:len(data)]))
    obs.add("records_compared", len(data))
    return tuple(repr(e) for e in es)


def own(e, always, top=True):
    n = type(e).__name__
    if n == "Power":
        return "Power(%s, %s)" % (own(e.base, always), own(e.exponent, always))
    if n in ("Sum", "Prod"):
        return "%s(%s)" % (n, ", ".join(own(t, always) for t in e.terms))
    if always and n in ("Rat", "Float"):
        return "%s(%s)" % (n, e.value)
    if always and n == "Symbol":
        return "Symbol(%s)" % e.name
    return repr(e)


def run_repr(case, obs):
    r = gen.tup(case["r"])
    pts = envs(case["s"], sorted(gen.variables(r)), 3)
    if not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 100:
        return None
    for m in ("moderate", "always"):
        g = call("debug_repr(%s, %r)" % (srepr(e), m), lambda: U.debug_repr(e, pedantic=m))
        if g != own(e, m == "always"):
            raise Violation("debug-repr", "debug_repr(%s, pedantic=%r) is %s, but the structure is %s" % (srepr(e), m, g, own(e, m == "always")))
    obs.add("structures_compared")
    return gen.show(r)


def shrink(case, fails):
    if case["k"] == "log":
        return case
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "%s: %s" % (case["k"], "; ".join(gen.show(gen.tup(r)) for r in case.get("rs", [case.get("r")])))
