"""C08 simplify() and the named rewriters keep the value"""
import importlib

from .. import gen, num
from ..common import *
from ..core import Violation
from simpy import simplify as S

SM = importlib.import_module("simpy.simplify.simplify")
PTS = importlib.import_module("simpy.simplify.product_to_sum")

ID = "C08"
RULE = (
    "a case is a random recipe, often shaped to trigger one of the rewriters (scaled Pythagorean sums with extra terms, "
    "products and powers of sines and cosines, sec/tan powers, sums of fractions, logarithms of products, powers and "
    "absolute values), put through simplify() and through each rewriter by itself; every output is evaluated against the "
    "input at 8 points; it counts when a rewriter changed the expression and two points were decided; distinct by recipe"
)
COUNT = {"quick": 2600, "thorough": 24000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 600, "thorough": 3000}
ASSUMPTIONS = [
    "splitting the logarithm of a product or power may lose points at which a factor is negative (it never gains a wrong value)",
]


# ---------------------------------------------------------------- shaped recipes

def inner(rng):
    x = gen.V(rng.choice("xxxyz"))
    c = rng.random()
    if c < 0.5:
        return x
    if c < 0.75:
        return ("*", gen.N(rng.choice([2, 3, 4, -2])), x)
    if c < 0.85:
        return ("+", x, gen.N(rng.choice([1, 2, -1])))
    if c < 0.93:
        return ("+", x, gen.V("y"))
    return ("^", x, gen.N(2))


def coeff(rng):
    c = rng.random()
    if c < 0.35:
        return gen.N(1)
    if c < 0.65:
        return gen.rnum(rng)
    if c < 0.85:
        return gen.V(rng.choice("xyz"))
    return ("*", gen.rnum(rng), gen.V(rng.choice("xyz")))


def sq(f, u, n=2):
    return ("^", (f, u), gen.N(n))


def pyth(rng):
    u = inner(rng)
    a = coeff(rng)
    b = a if rng.random() < 0.75 else coeff(rng)
    if rng.random() < 0.2:
        # a further square among the factors, in one term or in both
        q = sq(rng.choice(["sin", "cos", "tan", "sec"]), inner(rng))
        q = ("*", a, q) if a != gen.N(1) else q
        a, b = rng.choice([(q, b), (b, q), (q, q)])
    v = u if rng.random() < 0.85 else inner(rng)
    sg = rng.choice([1, 1, 1, -1])
    k = rng.randrange(8)
    two = lambda f, g: ("+", ("*", a, f), ("*", gen.N(sg), b, g))
    one = gen.N(1)
    t = [
        two(sq("sin", u), sq("cos", v)), two(one, sq("tan", u)), two(one, sq("sin", u)), two(one, sq("cos", u)),
        two(sq("sec", u), one), two(one, sq("cot", u)), two(sq("csc", u), one), two(sq("sec", u), sq("tan", v)),
    ][k]
    if rng.random() < 0.5:
        t = t + (gen.recipe(rng, "trig", 1),)
    if rng.random() < 0.25:
        t = ("^", t, gen.N(rng.choice([2, -1, -2])))
    elif rng.random() < 0.25:
        t = ("*", t, gen.recipe(rng, "trig", 1))
    return t


def odd(rng, n):
    """now and then an exponent that is not a rational number"""
    if rng.random() > 0.06:
        return n
    return rng.choice([gen.V("y"), ("*", gen.N(2), gen.V("y")), ("neg", gen.V("y")), ("f", 0.5), ("f", 2.5), ("f", 1.5), gen.V("x"), ("pi",), ("*", gen.N(2), ("pi",))])


def trigprod(rng):
    fs = []
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
        f = (rng.choice(["sin", "cos"]), inner(rng))
        n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5])
        n = odd(rng, gen.N(n) if rng.random() < 0.92 else gen.N(rng.choice([1, 3, 5, -1, -3, 4]), rng.choice([2, 3])))
        fs.append(f if n == gen.N(1) else ("^", f, n))
    if rng.random() < 0.4:
        fs.append(coeff(rng))
    return ("*",) + tuple(fs) if len(fs) > 1 else fs[0]


def sectan(rng):
    u = inner(rng)
    ts = []
    for _ in range(rng.choice([2, 3, 3, 4])):
        f = rng.choice(["sec", "tan", "sec", "tan"])
        n = gen.N(rng.choice([2, 2, 4, 4, 6, 1, 3])) if rng.random() < 0.8 else gen.N(rng.choice([2, 4, 8, 10, -2, -4, 5]), rng.choice([3, 5, 2]))
        ts.append(("*", rng.choice([gen.rnum(rng), gen.N(1), gen.N(-1)]), ("^", (f, u), odd(rng, n))))
    if rng.random() < 0.5:
        ts.append(gen.rnum(rng))
    return ("+",) + tuple(ts)


def ratio(rng):
    u = inner(rng)
    fs = [(rng.choice(["sin", "cos", "sec", "csc", "tan", "cot"]), u) for _ in range(rng.choice([2, 2, 3]))]
    fs = [("^", f, odd(rng, gen.N(rng.choice([1, 1, -1, -1, 2, -2])) if rng.random() < 0.9 else gen.N(rng.choice([1, -1, 3, -3]), rng.choice([2, 3])))) for f in fs]
    t = ("*",) + tuple(fs) + (coeff(rng),)
    return ("+", t, gen.recipe(rng, "trig", 1)) if rng.random() < 0.4 else t


def fractions(rng):
    ts = []
    dens = [gen.recipe(rng, "alg", 1) for _ in range(2)]
    for _ in range(rng.choice([2, 2, 3, 4])):
        d = rng.choice(dens)
        if rng.random() < 0.3:
            d = ("*", d, gen.recipe(rng, "alg", 1))
        if rng.random() < 0.25:
            d = ("^", d, gen.N(rng.choice([2, 3])))
        ts.append(("/", gen.recipe(rng, "alg", 1), d) if rng.random() < 0.8 else gen.recipe(rng, "alg", 1))
    return ("+",) + tuple(ts)


def logs(rng):
    def arg(d):
        c = rng.random()
        if d <= 0 or c < 0.2:
            return gen.recipe(rng, "full", 1)
        if c < 0.45:
            return ("*", arg(d - 1), arg(d - 1))
        if c < 0.65:
            return ("^", arg(d - 1), rng.choice([gen.N(2), gen.N(3), gen.N(-1), gen.N(1, 2), gen.N(-2), gen.V("y")]))
        if c < 0.75:
            return ("abs", arg(d - 1))
        if c < 0.85:
            a = arg(d - 1)
            return ("+", ("*", a, gen.V("x")), ("*", a, gen.rnum(rng)))
        return (rng.choice(["sec", "csc", "cot", "sin"]), inner(rng))

    t = ("ln", arg(2)) if rng.random() < 0.75 else ("log", arg(2), gen.N(rng.choice([2, 3, 10])))
    c = rng.random()
    if c < 0.3:
        t = ("+", ("*", coeff(rng), t), ("ln", arg(1)))
    elif c < 0.45:
        t = ("*", t, gen.recipe(rng, "full", 1))
    return t


SHAPES = (pyth, trigprod, sectan, ratio, fractions, logs, pyth, None, None)


def make(rng, i, tier):
    shape = SHAPES[i % len(SHAPES)]
    while True:
        if shape is None:
            prof = gen.PROFILES[("full", "trig", "rad")[(i // len(SHAPES)) % 3]]
            r = gen.recipe(rng, prof, rng.choice([2, 3, 3, 4]))
        else:
            r = shape(rng)
            if shape is trigprod and rng.random() < 0.35:
                r = ("+", r, trigprod(rng))
        if rng.random() < 0.06:
            r = gen.decimals(rng, r, 0.25)
        if gen.tame(r) and gen.size(r) < 70:
            return {"r": r, "s": rng.getrandbits(40)}


def first(t):
    return t[0] if isinstance(t, tuple) else t


# name -> (function, may the domain shrink)
REWRITERS = {
    "simplify()": (lambda e: e.simplify(), True),
    "trig_simplify": (lambda e: first(SM.trig_simplify(e)), False),
    "pythagorean_simplification": (lambda e: S.pythagorean_simplification(e), False),
    "expand_logs": (lambda e: S.expand_logs(e), True),
    "reciprocate_trigs": (lambda e: SM.reciprocate_trigs(e), False),
    "rewrite_as_one_fraction": (lambda e: SM.rewrite_as_one_fraction(e), False),
    "product_to_sum_unit": (lambda e: PTS.product_to_sum_unit(e), False),
    "product_to_sum": (lambda e: PTS.product_to_sum(e), False),
    "sectan": (lambda e: SM.sectan(e), False),
}


def run(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["s"], names, 8)
    e = build(r, "op", pts)
    if e is None or not defined_somewhere(r, pts):
        return None
    if blowup(e) > 120 or tree_size(e) > 120:
        obs.add("too_large")
        return None
    inexact = gen.has_float(r)
    before = struct(e)
    judged = False
    for name, (f, shrinks) in REWRITERS.items():
        what = "%s of %s" % (name, srepr(e))
        with assumptions() as A:
            try:
                g = call(what, lambda: f(e))
            except Absent:
                obs.add("absent_" + name)
                continue
        if g is None:
            continue
        if not isinstance(g, Expr):
            raise Violation("not-an-expression", "%s is %r" % (what, g))
        if struct(g) == before:
            continue
        obs.add("changed_by_" + name)
        n = judge(evaluator(e), evaluator(g), pts, obs, A, inexact, lambda: "%s = %s" % (what, srepr(g)),
                  lost_ok=shrinks and any(type(t).__name__ in ("log", "Abs") for t in nodes(e)))
        extra = names_of(g) - names_of(e)
        if extra:
            raise Violation("new-symbol", "%s = %s has new symbols %s" % (what, srepr(g), sorted(extra)))
        if n >= (2 if names else 1):
            judged = True
    if struct(e) != before:
        raise Violation("mutated", "simplifying changed %s" % srepr(e))
    return gen.show(r) if judged else None


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "simplify " + gen.show(gen.tup(case["r"]))
