"""C23 simplify() applies the identities it is for"""
import random
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation
from simpy import simplify as S

ID = "C23"
RULE = (
    "a case is an expression in which one of the identities simplify() is for can be applied (Pythagorean pairs with any common factor, 1 plus or minus a square, "
    "reciprocals and ratios of functions, products of sines and cosines that add up, powers of secants and tangents, polynomials that cancel), "
    "alone, with further terms or inside a root, a function, a denominator, an exponent or a product; the result must have no more terms and "
    "functions than the simplified form has, and its value; it counts when it was compared at two points; distinct by input"
)
COUNT = {"quick": 12000, "thorough": 120000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 2500, "thorough": 10000}
TRIG = {"sin", "cos", "tan", "sec", "csc", "cot"}
N, V = gen.N, gen.V
sq = lambda f, u: ("^", (f, u), N(2))


def arg(rng):
    x = V(rng.choice("xxyz"))
    c = rng.choice([2, 3, 5, 7, 12])
    return rng.choice([x, x, ("*", N(c), x), ("/", x, N(c)), ("+", x, N(rng.choice([1, 4, -2]))), ("+", x, V("t")), ("*", x, V("t")), ("^", x, N(2)), ("sqrt", x), ("ln", x), ("^", ("e",), x),
                       ("+", ("*", N(c), x), V("t")), ("+", ("^", x, N(2)), x), ("^", x, N(3)), ("*", N(c, 11), x), ("*", N(c), x, V("t")), ("*", ("pi",), x)])


def coeff(rng):
    return rng.choice([N(1), N(rng.choice([2, 3, -1, -4, 7])), N(rng.choice([1, -2, 5]), rng.choice([2, 3, 7])), V("a"), ("*", N(rng.choice([2, -3])), V("a")), ("sqrt", N(2)), ("pi",),
                       ("^", V("b"), N(2)), ("^", ("e",), V("b")), ("ln", V("b")), ("*", V("a"), V("b")), ("/", N(1), V("a")), ("sqrt", V("b")), ("*", V("a"), ("sqrt", N(3)))])


def rest(rng):
    return rng.choice([V("w"), ("*", N(rng.choice([2, -5])), V("w")), ("^", V("w"), N(3)), ("ln", V("w")), ("*", V("w"), V("a")), ("sin", V("w")), ("sqrt", V("w")), ("^", ("e",), V("w")), N(rng.choice([11, 13]))])


def unit(rng):
    return N(rng.choice([1, 1, -1]))


FAMILIES = {
    # name: (weight, builder(rng, u) -> (expression, simplified form))
    "pair": (5, lambda rng, u: (lambda c: (("+", ("*", c, sq("sin", u)), ("*", c, sq("cos", u))), c))(coeff(rng))),
    "tan": (2, lambda rng, u: (lambda c: (("+", c, ("*", c, sq("tan", u))), ("*", c, sq("sec", u))))(unit(rng))),
    "cot": (2, lambda rng, u: (lambda c: (("+", c, ("*", c, sq("cot", u))), ("*", c, sq("csc", u))))(unit(rng))),
    "sin": (2, lambda rng, u: (lambda c: (("-", c, ("*", c, sq("sin", u))), ("*", c, sq("cos", u))))(unit(rng))),
    "cos": (2, lambda rng, u: (lambda c: (("-", c, ("*", c, sq("cos", u))), ("*", c, sq("sin", u))))(unit(rng))),
    "sec": (2, lambda rng, u: (("-", sq("sec", u), N(1)), sq("tan", u))),
    "csc": (2, lambda rng, u: (("-", sq("csc", u), N(1)), sq("cot", u))),
    "over": (3, lambda rng, u: (lambda c, f, n: (("/", c, ("^", (f[0], u), N(n))), ("*", c, ("^", (f[1], u), N(n)))))(
        coeff(rng), rng.choice([("sin", "csc"), ("cos", "sec"), ("tan", "cot"), ("sec", "cos"), ("csc", "sin"), ("cot", "tan")]), rng.choice([1, 1, 1, 2, 3, Fraction(1, 2), Fraction(3, 2), Fraction(2, 3), Fraction(5, 3)]))),
    "ratio": (2, lambda rng, u: (lambda c, f: (("*", c, f[0]), ("*", c, f[1])))(
        unit(rng), rng.choice([(("/", ("sin", u), ("cos", u)), ("tan", u)), (("/", ("cos", u), ("sin", u)), ("cot", u)), (("*", ("sin", u), ("sec", u)), ("tan", u)),
                               (("*", ("cos", u), ("csc", u)), ("cot", u))]))),
    "sectan": (2, lambda rng, u: (lambda c: (("-", ("*", c, sq("sec", u)), ("*", c, sq("tan", u))), c))(unit(rng))),
    "cancel": (2, lambda rng, u: (lambda a, b, n: (("-", ("^", ("+", a, b), N(n)), ("+",) + tuple(("*", N(num.math.comb(n, k)), ("^", a, N(n - k)), ("^", b, N(k))) for k in range(n + 1))), N(0)))(
        ("*", N(rng.choice([1, 2, -3, 5])), V("x")), rng.choice([V("y"), N(rng.choice([1, 2, -3])), ("*", N(2, 3), V("t"))]), rng.choice([2, 2, 3, 4]))),
    "addition": (2, lambda rng, u: (lambda m, n: (("-", ("*", ("sin", ("*", N(m), u)), ("cos", ("*", N(n), u))), ("*", ("cos", ("*", N(m), u)), ("sin", ("*", N(n), u)))), ("sin", ("*", N(m - n), u)))
                                            if rng.random() < 0.5 else
                                            (("+", ("*", ("cos", ("*", N(m), u)), ("cos", ("*", N(n), u))), ("*", ("sin", ("*", N(m), u)), ("sin", ("*", N(n), u)))), ("cos", ("*", N(m - n), u))))(
        rng.choice([5, 6, 7]), rng.choice([2, 3, 4]))),
}
WRAP = ["", "", "rest", "rest", "sqrt", "fn", "times", "denominator", "exponent"]


def make(rng, i, tier):
    k = gen.choose(rng, [(n, w[0]) for n, w in FAMILIES.items()])
    u = arg(rng)
    if k == "addition" and u[0] == "+":
        u = u[1]  # (a multiple of a sum may be multiplied out or not)
    a, b = FAMILIES[k][1](rng, u)
    w = rng.choice(WRAP)
    if w == "times" and k not in ("pair", "cancel", "over") or w not in ("", "exponent") and k == "sectan":
        w = ""
    return {"k": k, "a": a, "b": b, "w": w, "rest": rest(rng), "fn": rng.choice(["sqrt", "atan", "e", "abs"]), "s": rng.getrandbits(40)}


def wrapped(case, r):
    w, t = case["w"], gen.tup(case["rest"])
    if w == "rest":
        return ("+", r, t)
    if w == "sqrt":
        return ("sqrt", ("+", r, V("w")))
    if w == "fn":
        f, p = case["fn"], ("+", r, V("w"))
        return ("^", ("e",), p) if f == "e" else (f, p)
    if w == "times":
        return ("*", ("sqrt", V("w")), ("+", r, V("w")))
    if w == "denominator":
        return ("/", N(1), ("+", r, V("w")))
    if w == "exponent":
        return ("^", V("w"), r)
    return r


def cost(e):
    """(trig functions, sums' terms) in the tree"""
    f = t = 0
    for u in nodes(e):
        n = type(u).__name__
        if n in TRIG:
            f += 1
        elif n == "Sum":
            t += len(u.terms) - 1
    return f, t


def run(case, obs):
    a, b = wrapped(case, gen.tup(case["a"])), wrapped(case, gen.tup(case["b"]))
    if not gen.tame(a):
        return None
    names = sorted(gen.variables(a) | gen.variables(b))
    pts = envs(case["s"], names, 8)
    if not defined_somewhere(a, pts):
        return None
    e, want = build(a, "op", pts), build(b, "op", pts)
    if e is None or want is None:
        return None
    s0 = struct(e)
    what = "simplify(%s)" % srepr(e)
    with assumptions() as A:
        g = call(what, e.simplify)
    if struct(e) != s0:
        raise Violation("mutated", what + " changed its argument")
    c, d = cost(g), cost(want)
    if c[0] > d[0] or c[1] > d[1]:
        raise Violation("not-simplified-" + case["k"], "%s = %s but it is %s" % (what, srepr(g), srepr(want)))
    if case["k"] == "over":
        for t in nodes(g):
            if type(t).__name__ == "Power" and type(t.base).__name__ in TRIG and type(t.exponent).__name__ == "Rat" and t.exponent.value < 0:
                raise Violation("not-simplified-" + case["k"], "%s = %s still has the negative power %s" % (what, srepr(g), srepr(t)))
    n = judge(denoter(b), evaluator(g), pts, obs, A, False, lambda: "%s = %s" % (what, srepr(g)), "value", lost_ok=True)
    obs.add("identity_" + case["k"])
    obs.add("inside_" + (case["w"] or "nothing"))
    return gen.show(a) if n >= 2 else None


def shrink(case, fails):
    return case


def describe(case):
    return "simplify " + gen.show(wrapped(case, gen.tup(case["a"])))
