"""C14 integrate() always answers, and solves the textbook families"""
import contextlib
import time
import warnings

from .. import families, gen, integrands, itree, num
from ..common import *
from ..core import Timeout, Violation
from .c11 import infinite, leaks
import simpy

ID = "C14"
RULE = (
    "a case is a call of integrate(): a sum of one to three members of 22 textbook families (must be solved), any expression at "
    "all (must give an expression or None, without an exception, within 30 s of CPU time), the same problem with its variable "
    "renamed or the integrand multiplied by a number (must be solved exactly if the original is), or a call that leaves the variable out; it counts "
    "when the call was judged; distinct by integrand"
)
COUNT = {"quick": 4500, "thorough": 40000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 3000, "thorough": 9000}
LIMIT = 30.0  # the search stops after 2 s, but not in the middle of a step; 2^x/(2^(2*x) + 1) has one that takes 7 s
CASE_TIMEOUT = {"quick": 60, "thorough": 60}
ALONE = {"two_factors", "circle", "arctan", "csc2", "square", "trig_linear", "tan_sec2", "usub_trig"}
ASSUMPTIONS = [
    "integrands that have no value at any of the sample points may be refused with an exception",
    "no power with an exponent above 10: rewriting it takes long, and the time limit of the search is looked at between steps only",
    "the families leave out what the integrator is known not to solve (see DESIGN.md)",
]


def make(rng, i, tier):
    k = ("family", "family", "any", "any", "same", "api")[i % 6]
    if k == "family":
        n = rng.choice([1, 1, 1, 2, 2, 3])
        while True:
            ms = [families.member(rng) for _ in range(n)]
            # simplify() may bring sums to a common denominator, which is then not always solved
            if n == 1 or not any("y" in gen.variables(m[1]) or m[0] in ALONE for m in ms):
                break
        r = ms[0][1] if len(ms) == 1 else ("+",) + tuple(m[1] for m in ms)
        return {"k": k, "f": [m[0] for m in ms], "r": r, "s": rng.getrandbits(40), "bf": rng.random() < 0.25}
    if k == "any":
        c = rng.random()
        if c < 0.5:
            r = gen.recipe(rng, rng.choice(["full", "rad", "trig", "alg"]), rng.choice([1, 2, 2, 3]))
        elif c < 0.75:
            r = ("*", integrands.make(rng, rng.choice(integrands.NAMES)), integrands.make(rng, rng.choice(integrands.NAMES)))
        elif c < 0.9:
            from .c13 import linear, odd, tabled
            r = rng.choice([odd, linear, tabled])(rng)
        else:
            while True:
                r = ("^", gen.recipe(rng, "full", 1), gen.recipe(rng, "full", 1))
                if gen.tame(r):
                    break
        if rng.random() < 0.1:
            r = gen.decimals(rng, r)
        return {"k": k, "r": r, "s": rng.getrandbits(40), "bf": rng.random() < 0.25, "v": rng.choice("xxxxy")}
    r = integrands.make(rng, rng.choice(integrands.NAMES))
    if k == "same":
        return {"k": k, "r": r, "s": rng.getrandbits(40), "v": rng.choice(["t", "a", "theta", "zz", "A", "u_1", "y1"]),
                "c": rng.choice([-1, -1, 3, 7, -5])}
    return {"k": k, "r": r, "s": rng.getrandbits(40), "bf": rng.random() < 0.25, "v": "x"}


def rename(r, a, b):
    if r[0] == "v":
        return ("v", b if r[1] == a else r[1])
    ks = gen.kids(r)
    return gen.with_kids(r, [rename(k, a, b) for k in ks]) if ks else r


def ask(what, fn, r, pts, obs, limit=LIMIT):
    """(answered, answer) of one call, with its CPU time watched"""
    t0 = time.process_time()
    defined = defined_somewhere(r, pts)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = call(what, fn) if defined else guarded(what, fn, r, pts)
    except Timeout:
        if limit and time.process_time() - t0 > limit:
            raise Violation("does-not-end", "%s used %.0f s of CPU time without an answer" % (what, time.process_time() - t0))
        raise
    dt = time.process_time() - t0
    obs.max("max_cpu_ms", int(dt * 1000))
    if limit and dt > limit:
        raise Violation("does-not-end", "%s used %.0f s of CPU time" % (what, dt))
    if a is not None and not isinstance(a, Expr):
        raise Violation("not-an-expression", "%s returned %r" % (what, a))
    return a


@contextlib.contextmanager
def slow_clock(factor=8):
    """time.time() runs slower, so that a busy machine does not end the search early"""
    real = time.time
    t0 = real()
    time.time = lambda: t0 + (real() - t0) / factor
    try:
        yield
    finally:
        time.time = real


def again(a, what, fn, r, pts, obs):
    """an answer of None is confirmed with more time, so that the 2 s limit never decides a verdict"""
    if a is not None:
        return a
    with slow_clock():
        a = ask(what, fn, r, pts, obs, None)
    if a is not None:
        obs.add("solved_with_more_time")
    return a


def checked(what, a, e, given, obs):
    if a is None:
        obs.add("unsolved")
        return
    obs.add("solved")
    if leaks(a, names_of(e) | given):
        raise Violation("leaked-variable", "%s = %s contains %s" % (what, srepr(a), leaks(a, names_of(e) | given)))
    if infinite(a) and not infinite(e):
        raise Violation("infinite-answer", "%s = %s" % (what, srepr(a)))


def run(case, obs):
    r = gen.tup(case["r"])
    k = case["k"]
    v = "x" if k in ("same", "family") else case["v"]
    pts = itree.spoints(case["s"], sorted(gen.variables(r) | {v}), 8, v)
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 200 or blowup(e) > 3000:
        return None
    if any(type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat" and abs(t.exponent.value) > 10 for t in nodes(e)):
        return None  # rewriting sin(x)^24 alone takes long
    x = X.Symbol(v)
    kw = {"breadth_first": True} if case.get("bf") else {}
    what = "integrate(%s, %s%s)" % (srepr(e), v, ", breadth_first=True" if kw else "")
    before = struct(e)
    if k in ("family", "any"):
        a = ask(what, lambda: simpy.integrate(e, x, **kw), r, pts, obs)
        checked(what, a, e, {v}, obs)
        if struct(e) != before:
            raise Violation("mutated", "%s changed its argument" % what)
        if k == "family":
            a = again(a, what, lambda: simpy.integrate(e, x, **kw), r, pts, obs)
            if a is None:
                raise Violation("unsolved", "%s, a sum from the families %s, was not solved" % (what, case["f"]))
            for f in case["f"]:
                obs.add("family_" + f)
        return (k, repr(r), v)
    if not defined_somewhere(r, pts):
        return None
    if k == "same":
        if names_of(e) - {"x"} or gen.variables(r) - {"x"}:
            return None
        a = ask(what, lambda: simpy.integrate(e, x), r, pts, obs)
        w = case["v"]
        e2 = gen.build(rename(r, "x", w))
        b = ask("integrate(%s, %s)" % (srepr(e2), w), lambda: simpy.integrate(e2, X.Symbol(w)), r, pts, obs)
        if (a is None) != (b is None):
            a = again(a, what, lambda: simpy.integrate(e, x), r, pts, obs)
            b = again(b, what, lambda: simpy.integrate(e2, X.Symbol(w)), r, pts, obs)
        if (a is None) != (b is None):
            raise Violation("renamed", "%s = %s, but with %s for the variable it is %s" % (what, srepr(a), w, srepr(b)))
        e3 = case["c"] * e
        c = ask("integrate(%s, x)" % srepr(e3), lambda: simpy.integrate(e3, x), r, pts, obs)
        if (a is None) != (c is None):
            a = again(a, what, lambda: simpy.integrate(e, x), r, pts, obs)
            c = again(c, what, lambda: simpy.integrate(e3, x), r, pts, obs)
        if (a is None) != (c is None):
            raise Violation("scaled", "%s = %s, but integrate(%s) is %s" % (what, srepr(a), srepr(e3), srepr(c)))
        obs.add("both_solved" if a is not None else "both_unsolved")
        return (k, repr(r), v)
    # api: without the variable
    names = names_of(e)
    if len(names) == 1:
        only = names.pop()
        a = ask("integrate(%s)" % srepr(e), lambda: simpy.integrate(e), r, pts, obs)
        b = ask("integrate(%s, %s)" % (srepr(e), only), lambda: simpy.integrate(e, X.Symbol(only)), r, pts, obs)
        if (a is None) != (b is None):
            a = again(a, what, lambda: simpy.integrate(e), r, pts, obs)
            b = again(b, what, lambda: simpy.integrate(e, X.Symbol(only)), r, pts, obs)
        if (a is None) != (b is None) or (a is not None and struct(a) != struct(b)):
            raise Violation("variable-left-out", "integrate(f) is %s and integrate(f, %s) is %s for f = %s" % (
                srepr(a), only, srepr(b), srepr(e)))
        obs.add("variable_left_out")
    else:
        for args in ((), ((1, 2),)):
            try:
                a = simpy.integrate(e, *args)
            except ValueError:
                obs.add("ambiguous_refused")
                continue
            except Exception as ex:
                raise Violation("wrong-exception", "integrate(%s%s) raised %s instead of ValueError" % (
                    srepr(e), "".join(", %r" % (t,) for t in args), type(ex).__name__))
            raise Violation("ambiguous-variable", "integrate(%s) has symbols %s but gave %s" % (srepr(e), sorted(names), srepr(a)))
    return (k, repr(r), v)


def shrink(case, fails):
    if case["k"] == "family":
        r = gen.tup(case["r"])
        if r[0] == "+" and len(case["f"]) > 1:
            for j, t in enumerate(r[1:]):
                c = dict(case, r=t, f=[case["f"][j]])
                if fails(c):
                    return c
        return case
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return {"mode": case["k"], "integrand": gen.show(gen.tup(case["r"]))}


def final(tot, obs):
    if tot["timeout"] > 20:
        return "%d cases ran out of wall time" % tot["timeout"]
    return None
