"""C09 factor() keeps the value and pulls out what the terms share"""
import random
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation

ID = "C09"
RULE = (
    "a case is a sum: random terms multiplied by a random common factor (numbers, powers with positive, negative and "
    "fractional exponents, functions, sums), or any random recipe that builds to a sum; factor() is evaluated against the "
    "sum at 8 points and, when the terms share a symbol power or an integer content by an independent reading of the "
    "terms, the result must be a product; it counts when factor changed the expression and two points were decided"
)
COUNT = {"quick": 6000, "thorough": 40000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 1000, "thorough": 4000}


def factor_(rng):
    c = rng.random()
    x = gen.V(rng.choice("xyz"))
    if c < 0.3:
        return ("^", x, gen.N(*rng.choice([(1, 1), (2, 1), (3, 1), (-1, 1), (-2, 1), (1, 2), (3, 2), (-1, 2)])))
    if c < 0.5:
        return gen.rnum(rng)
    if c < 0.65:
        return (rng.choice(["sin", "cos", "tan", "ln", "atan"]), x)
    if c < 0.8:
        return ("^", ("+", x, gen.rnum(rng)), gen.N(rng.choice([1, 2, -1])))
    if c < 0.88:
        return ("^", ("e",), x)
    return rng.choice([("pi",), ("sqrt", gen.N(2)), ("f", 1.5)])


def term(rng):
    fs = [factor_(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return ("*",) + tuple(fs) if len(fs) > 1 else fs[0]


def make(rng, i, tier):
    if i % 4 < 3:
        common = [factor_(rng) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
        n = rng.choice([2, 2, 3, 4])
        scale = gen.N(rng.choice([1, 1, 2, 3, 6, -1, -4]))
        ts = []
        for _ in range(n):
            fs = common + [term(rng), scale]
            rng.shuffle(fs)
            ts.append(("*",) + tuple(fs))
        r = ("+",) + tuple(ts)
    else:
        prof = gen.PROFILES[("alg", "full", "rad", "trig")[(i // 4) % 4]]
        r = ("+",) + tuple(gen.recipe(rng, prof, rng.choice([1, 2, 2])) for _ in range(rng.choice([2, 3])))
    if rng.random() < 0.08:
        r = gen.decimals(rng, r)
        r = r if r[0] == "+" else ("+", r, gen.V("x"))
    return {"r": r, "s": rng.getrandbits(40), "before": rng.random() < 0.5}


def others(e, rng):
    """sums that share term objects with e"""
    x, y = X.Symbol("x"), X.Symbol("y")
    for _ in range(2):
        ts = rng.sample(e.terms, rng.randint(1, len(e.terms) - 1)) if len(e.terms) > 1 else list(e.terms)
        extra = rng.choice([x**2, x * y, y**3, X.sin(x), x**-1, X.Rat(4) * x * y, X.Rat(1, 2)])
        yield X.Sum(ts + [extra])


def shared(e):
    """symbols s such that every term of the sum has s to a positive (or to a negative) rational power as a factor"""
    per = []
    for t in e.terms:
        d = {}
        for f in t.terms if type(t).__name__ == "Prod" else [t]:
            n = type(f).__name__
            if n == "Symbol":
                d[f.name] = Fraction(1)
            elif n == "Power" and type(f.base).__name__ == "Symbol" and type(f.exponent).__name__ == "Rat":
                d[f.base.name] = f.exponent.value
        per.append(d)
    out = []
    for s in per[0]:
        v = [d.get(s) for d in per]
        if all(x is not None and x > 0 for x in v) or all(x is not None and x < 0 for x in v):
            out.append((s, min(v, key=abs)))
    return out


def content(e):
    """the smallest coefficient when of any two coefficients one is an integer multiple of the other, else 1"""
    cs = []
    for t in e.terms:
        f = t.terms[0] if type(t).__name__ == "Prod" else t
        if type(f).__name__ in ("Float", "Infinity", "NegInfinity"):
            return Fraction(1)
        cs.append(f.value if type(f).__name__ == "Rat" else Fraction(1))
    m = min(cs, key=abs)
    ok = all((a / b).denominator == 1 or (b / a).denominator == 1 for a in cs for b in cs)
    return abs(m) if ok else Fraction(1)


def run(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["s"], names, 8)
    e = build(r, "op", pts)
    if e is None or type(e).__name__ != "Sum" or not defined_somewhere(r, pts):
        return None
    if case["before"]:
        rng = random.Random(case["s"])
        for o in call("adding", lambda: list(others(e, rng))):
            if type(o).__name__ == "Sum":
                call("factor of %s" % srepr(o), o.factor)
                obs.add("sums_sharing_a_term_factored_before")
    before = struct(e)
    what = "factor of %s" % srepr(e)
    with assumptions() as A:
        g = call(what, e.factor)
    if not isinstance(g, Expr):
        raise Violation("not-an-expression", "%s is %r" % (what, g))
    if struct(e) != before:
        raise Violation("mutated", what + " changed the sum")
    n = judge(evaluator(e), evaluator(g), pts, obs, A, gen.has_float(r), lambda: "%s = %s" % (what, srepr(g)))
    if names_of(g) - names_of(e):
        raise Violation("new-symbol", "%s = %s has new symbols" % (what, srepr(g)))
    if len(e.terms) > 1 and not any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN") for t in nodes(e)):
        pulled(e, g, what, obs)
    if struct(g) == before:
        obs.add("left_alone")
        return None
    obs.add("factored")
    return gen.show(r) if n >= (2 if names else 1) else None


def pulled(e, g, what, obs):
    fs = {}
    for f in g.terms if type(g).__name__ == "Prod" else [g]:
        b, x = (f.base, f.exponent) if type(f).__name__ == "Power" else (f, None)
        if type(b).__name__ == "Symbol" and (x is None or type(x).__name__ == "Rat"):
            fs[b.name] = x.value if x is not None else Fraction(1)
    left = [f for f in (g.terms if type(g).__name__ == "Prod" else [g]) if type(f).__name__ == "Sum"
            or type(f).__name__ == "Power" and type(f.base).__name__ == "Sum"]
    for s, m in shared(e) if left else []:  # (what is left may collapse into another power of the same symbol)
        obs.add("shared_powers_checked")
        if s not in fs or fs[s] != m:
            raise Violation("not-factored", "%s = %s: every term has the factor %s^%s but the result does not"
                            % (what, srepr(g), s, m))
    c = content(e)
    if c != 1:
        obs.add("contents_checked")
        if type(g).__name__ == "Sum":
            raise Violation("not-factored", "%s = %s: every term is a multiple of %s" % (what, srepr(g), c))


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "factor " + gen.show(gen.tup(case["r"]))
