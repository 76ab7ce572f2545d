"""C11 an indefinite integral differentiates back to its integrand"""
from fractions import Fraction

from .. import gen, integrands, itree, num
from ..common import *
from ..core import Violation
import simpy

ID = "C11"
RULE = (
    "a case is an integrand (14 shapes the integrator is built for, sums of two of them, products of what its substitutions look "
    "for, random expressions, or the derivative of a random expression); when integrate() returns an answer its derivative, taken "
    "by the monitor's own forward-mode differentiation, is compared with the integrand at 10 points; it counts when the answer was "
    "judged at one point at least; distinct by integrand"
)
COUNT = {"quick": 3500, "thorough": 30000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 1500, "thorough": 8000}
ASSUMPTIONS = [
    "a power of a power or of a product with a non-integer exponent is rewritten as if its base were non-negative (finding D1 "
    "of C01); points where that is false are not used",
    "answers that went through a substitution u = sin(v) with dv = du/sqrt(1-u^2) are judged where cos(v) > 0 (finding D7)",
    "an answer may have no real value at some points of the integrand's domain (the logarithm of a negative number); there its "
    "complex derivative is compared instead",
]


def make(rng, i, tier):
    names = integrands.NAMES
    k = i % 10
    if k < 6:
        r = integrands.make(rng, names[(i // 10 * 6 + k) % len(names)])
    elif k == 6:
        r = integrands.mix(rng)
    elif k == 7:
        from .c13 import linear, odd, tabled
        r = rng.choice([odd, odd, linear, linear, tabled])(rng)
    elif k == 8:
        r = gen.rexpr(rng, gen.PROFILES[rng.choice(["alg", "trig", "rad", "full"])], rng.choice([1, 2, 2, 3]))
    else:
        # the derivative of something: solvable in principle
        r = gen.rexpr(rng, gen.PROFILES[rng.choice(["alg", "trig", "rad", "full"])], rng.choice([1, 2, 2]))
    c = rng.random()
    if c < 0.08:
        r = gen.decimals(rng, r)
    elif c < 0.6 and gen.variables(r) & {"y", "z"}:
        # parameters with all kinds of names
        r = swapped(r, dict(zip(("y", "z"), rng.choice([("u", "t"), ("u", "v"), rng.sample(("u", "u_1", "u_0", "t", "xx", "x1", "dx", "k", "a"), 2)]))))
    return {"k": "diff" if k == 9 else "plain", "r": r, "s": rng.getrandbits(40)}


def infinite(e):
    return any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN") for t in nodes(e))


def leaks(e, given):
    return sorted(names_of(e) - given)


def extended(root, env):
    """the sample point with the values of every intermediate variable of the tree, and whether a substitution by a sine or
    cosine was used on the wrong side of its branch at this point"""
    ef = num.envf(env)
    off = False
    for node, path in itree.walk(root):
        if not path or node.is_filler:
            continue
        s = path[-1]
        if s.child is not node:
            continue
        try:
            if s.node.var.name in ef and node.var.name not in ef:
                c = num.val(s.c, ef, num.FLOAT)
                ef[node.var.name] = num.val(s.cu, ef, num.FLOAT) / c
            br = itree.trig_branch(s, ef)
            if br is not None and br < 1e-9 and not exact(s, ef):
                off = True
        except (num.Undef, num.Foreign, ArithmeticError, ValueError, TypeError):
            continue
    return {k: Fraction(v) for k, v in ef.items()}, off


def exact(step, ef):
    p = {k: Fraction(v) for k, v in ef.items()}
    return num.compare(lambda env, F: num.val(step.node.expr, env, F), itree.right_side(step), p).kind == "eq"


def swapped(r, m):
    if r[0] == "v":
        return ("v", m.get(r[1], r[1]))
    ks = gen.kids(r)
    return gen.with_kids(r, [swapped(k, m) for k in ks]) if ks else r


def run(case, obs):
    r = gen.tup(case["r"])
    pts = itree.spoints(case["s"], sorted(gen.variables(r) | {"x"}), 10)
    e = build(r, "op", pts)
    if e is None or not defined_somewhere(r, pts):
        return None
    if case["k"] == "diff":
        e = e.diff(X.Symbol("x"))
    if tree_size(e) > 150:
        return None
    n = one(case, obs, r, e, "x", pts)
    others = sorted(names_of(e) - {"x"})
    if others and case["k"] != "diff":
        # the same by another variable, and the mirror image of it, in the same process
        v = others[case["s"] % len(others)]
        if case["s"] // 8 % 3:
            r2 = swapped(r, {"x": v, v: "x"})
            e2 = build(r2, "op", pts)
        else:
            r2, e2 = r, e
        if e2 is not None and defined_somewhere(r2, pts):
            n += one(case, obs, r2, e2, v, pts)
            obs.add("by_another_variable")
    if not n:
        obs.add("answers_not_judged")
        return None
    return repr((case["k"], r))


def one(case, obs, r, e, var, pts):
    x = X.Symbol(var)
    den = evaluator(e)
    what = "integrate(%s, %s)" % (srepr(e), var)
    with assumptions() as A, itree.watching() as W:
        a = guarded(what, lambda: simpy.integrate(e, x), r, pts)
    if a is None:
        obs.add("unsolved")
        return 0
    if not isinstance(a, Expr):
        raise Violation("not-an-expression", "%s returned %r" % (what, a))
    if leaks(a, names_of(e) | gen.variables(r) | {var}):
        raise Violation("leaked-variable", "%s = %s contains %s" % (what, srepr(a), leaks(a, names_of(e) | {var})))
    if infinite(a) and not infinite(e):
        raise Violation("infinite-answer", "%s = %s" % (what, srepr(a)))
    root = W.roots[-1][2] if W.roots else None
    da = num.derivative(evaluator(a), var)
    eq, cne = 0, []
    inexact = gen.has_float(r)
    for p in pts:
        v = num.compare(den, da, p, inexact)
        if v.kind == "eq":
            obs.add("points_eq")
            eq += 1
            continue
        if v.kind in ("undef", "ambiguous"):
            obs.add("points_" + v.kind)
            continue
        if root is not None:
            pe, off = extended(root, p)
            if off:
                obs.add("points_on_the_other_trig_branch")
                continue
            if A.excused(pe, v.kind == "lost"):
                obs.add("points_outside_claim")
                continue
        elif A.excused(p, v.kind == "lost"):
            obs.add("points_outside_claim")
            continue
        if v.kind == "lost":
            k = num.complex_compare(den, a, p, var, inexact)
            obs.add("points_lost_complex_" + k)
            if k == "eq":
                eq += 1
                continue
            if k == "ne":
                cne.append((p, v))
            continue
        raise Violation("wrong-antiderivative", "%s = %s; at %s its derivative is %s instead of %s" % (
            what, srepr(a), {k: str(float(t)) for k, t in p.items()}, mp.nstr(v.b, 12), mp.nstr(v.a, 12)))
    if not eq and cne:
        p, v = cne[0]
        raise Violation("wrong-antiderivative", "%s = %s has no real value at %s, and its complex derivative is not %s" % (
            what, srepr(a), {k: str(float(t)) for k, t in p.items()}, mp.nstr(v.a, 12)))
    if eq:
        obs.add("answers_judged")
    return eq


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "integrate %s%s" % ("the derivative of " if case["k"] == "diff" else "", gen.show(gen.tup(case["r"])))


def branch():
    x = X.Symbol("x")
    a = simpy.integrate(X.sec(x) ** 2 / X.tan(x) ** 2, x)
    if a is None:
        return None
    v = num.compare(lambda env, F: F.rat(Fraction(1)) / F.powi(F.sin(env["x"]), 2), num.derivative(evaluator(a), "x"), {"x": Fraction(5, 2)})
    return "integrate(sec(x)^2/tan(x)^2) = %s" % srepr(a) if v.kind == "ne" else None


KNOWN = {"D7": branch}
