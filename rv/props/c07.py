"""C07 expand() multiplies out completely and keeps the value"""
import math
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation

ID = "C07"
RULE = (
    "a case is either a random polynomial recipe (sums, products, differences, non-negative integer powers, Laurent "
    "monomials, up to 4 symbols) whose expansion is compared coefficient by coefficient with an independent dictionary "
    "polynomial, or a random recipe of any kind whose expansion is evaluated against the original at 8 points; it counts "
    "when a dictionary comparison was made or two points were decided; distinct by recipe"
)
COUNT = {"quick": 6000, "thorough": 40000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 1500, "thorough": 5000}
SYM = ("x", "y", "z", "w")


# ---------------------------------------------------------------- polynomial recipes

def rpoly(rng, depth, laurent):
    if depth <= 0 or rng.random() < 0.12:
        if rng.random() < 0.65:
            v = gen.V(rng.choice(SYM[: rng.choice([1, 2, 3, 4])]))
            return ("^", v, gen.N(rng.choice([2, 3, -1, -2]))) if laurent and rng.random() < 0.3 else v
        return gen.rnum(rng)
    k = rng.random()
    sub = lambda: rpoly(rng, depth - 1, laurent)
    if k < 0.4:
        return ("+",) + tuple(sub() for _ in range(rng.choice([2, 2, 3, 4])))
    if k < 0.65:
        return ("*",) + tuple(sub() for _ in range(rng.choice([2, 2, 3])))
    if k < 0.75:
        return ("-", sub(), sub())
    if k < 0.8:
        return ("neg", sub())
    if k < 0.84:
        return ("/", sub(), gen.N(rng.choice([2, 3, -4, 5])))
    return ("^", sub(), gen.N(rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 1])))


class Big(Exception):
    pass


LIMIT = 260


def pmul(a, b):
    out = {}
    if len(a) * len(b) > 6000:
        raise Big()
    for ka, va in a.items():
        for kb, vb in b.items():
            k = tuple(p + q for p, q in zip(ka, kb))
            out[k] = out.get(k, 0) + va * vb
    return out


def clean(a):
    a = {k: v for k, v in a.items() if v}
    if len(a) > LIMIT:
        raise Big()
    return a


def pden(r):
    """the polynomial a recipe denotes, as {exponents: coefficient}"""
    op = r[0]
    z = (0,) * len(SYM)
    if op == "n":
        return clean({z: Fraction(r[1], r[2])})
    if op == "v":
        return {tuple(int(s == r[1]) for s in SYM): Fraction(1)}
    if op == "+":
        out = {}
        for k in r[1:]:
            for m, c in pden(k).items():
                out[m] = out.get(m, 0) + c
        return clean(out)
    if op == "*":
        out = {z: Fraction(1)}
        for k in r[1:]:
            out = clean(pmul(out, pden(k)))
        return out
    if op == "-":
        return pden(("+", r[1], ("neg", r[2])))
    if op == "neg":
        return {m: -c for m, c in pden(r[1]).items()}
    if op == "/":
        c = Fraction(r[2][1], r[2][2])
        return {m: v / c for m, v in pden(r[1]).items()}
    n = r[2][1]
    p = pden(r[1])
    if n < 0:
        if len(p) != 1:
            raise Big()
        (m, c), = p.items()
        return {tuple(n * k for k in m): c**n}
    out = {z: Fraction(1)}
    for _ in range(n):
        out = clean(pmul(out, p))
    return out


def read(e):
    """the dictionary polynomial a fully expanded simpy expression is; raises ValueError when it is not one"""
    out = {}
    for t in e.terms if type(e).__name__ == "Sum" else [e]:
        c, ex = Fraction(1), [0] * len(SYM)
        for f in t.terms if type(t).__name__ == "Prod" else [t]:
            n = type(f).__name__
            if n == "Rat":
                c *= f.value
            elif n == "Symbol":
                ex[SYM.index(f.name)] += 1
            elif (n == "Power" and type(f.base).__name__ == "Symbol" and type(f.exponent).__name__ == "Rat"
                  and f.exponent.value.denominator == 1):
                ex[SYM.index(f.base.name)] += int(f.exponent.value)
            else:
                raise ValueError(srepr(f))
        k = tuple(ex)
        if k in out:
            raise ValueError("the monomial %s appears twice" % srepr(t))
        if c:
            out[k] = c
        elif type(e).__name__ == "Sum":
            raise ValueError("a zero term")
    return out


# ---------------------------------------------------------------- cases

def make(rng, i, tier):
    if i % 2 == 0:
        deep = rng.choice([1, 2, 2, 3, 3]) + (tier == "thorough" and rng.random() < 0.3)
        lau = i % 6 == 0
        for _ in range(60):
            r = rpoly(rng, deep, lau)
            if gen.tame(r) and gen.size(r) < 60:
                try:
                    pden(r)
                    break
                except Big:
                    pass
        else:
            r = ("^", ("+", gen.V("x"), gen.N(1)), gen.N(2))
        return {"k": "poly", "r": r, "s": rng.getrandbits(40)}
    prof = gen.PROFILES[("alg", "full", "trig", "rad", "alg")[(i // 2) % 5]]
    r = gen.recipe(rng, prof, rng.choice([2, 3, 3, 4]))
    if rng.random() < 0.12:
        # a function of something to be multiplied out, as a factor or a term
        a = ("*", gen.recipe(rng, "alg", 1), ("+", gen.V(rng.choice("xyz")), gen.N(rng.choice([1, 2, -1, 3]))))
        f = rng.choice([lambda: (rng.choice(["sin", "cos", "tan", "ln", "atan", "abs", "sec"]), a), lambda: ("^", ("ln", a), gen.N(2)),
                        lambda: ("log", a, gen.N(2))])()
        r = (rng.choice(["*", "*", "+"]),) + tuple(rng.sample([f, r, gen.recipe(rng, "alg", 1)], 3))
    elif rng.random() < 0.25:
        r = ("*", r, gen.recipe(rng, prof, 2))
    elif rng.random() < 0.25:
        r = ("^", ("+", r, gen.recipe(rng, prof, 1)), gen.N(rng.choice([2, 3, -2, -1, -3])))
        if not gen.tame(r):
            r = r[1]
    if rng.random() < 0.1:
        r = gen.decimals(rng, r)
    return {"k": "any", "r": r, "s": rng.getrandbits(40)}


def run(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["s"], names, 8)
    e = build(r, "op", pts)
    if e is None or not defined_somewhere(r, pts):
        return None
    if blowup(e) > 400:
        obs.add("too_large")
        return None
    what = "expand of %s" % srepr(e)
    able = call("expandable() of " + srepr(e), e.expandable)
    if not able:
        obs.add("not_expandable")
        if case["k"] == "poly":
            return compare(r, e, "the non-expandable " + srepr(e), obs)
        return None
    before = struct(e)
    with assumptions() as A:
        g = call(what, e.expand)
    if struct(e) != before:
        raise Violation("mutated", what + " changed the expression")
    if call(what, e.expand) is None or struct(e.expand()) != struct(g):
        raise Violation("repeat", what + " gives something else the second time")
    if case["k"] == "poly":
        return compare(r, g, "%s = %s" % (what, srepr(g)), obs)
    n = judge(evaluator(e), evaluator(g), pts, obs, A, gen.has_float(r), lambda: "%s = %s" % (what, srepr(g)))
    extra = names_of(g) - names_of(e)
    if extra:
        raise Violation("new-symbol", "%s = %s has new symbols" % (what, srepr(g)))
    if not any(t.value.denominator != 1 for u in nodes(e) if type(u).__name__ == "Power" for t in [u.exponent]
               if type(t).__name__ == "Rat"):
        multiplied_out(g, what, obs)  # (merging roots can make a new sum: (sqrt(y + 2) + e)^3)
    return gen.show(r) if n >= (2 if names else 1) else None


def compare(r, g, what, obs):
    want = pden(r)
    try:
        got = read(g)
    except ValueError as ex:
        raise Violation("not-expanded", "%s is not a sum of distinct monomials: %s" % (what, ex))
    if got != want:
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[0]
        raise Violation("coefficient", "%s has coefficient %s of %s but should have %s"
                        % (what, got.get(bad, 0), dict(zip(SYM, bad)), want.get(bad, 0)))
    obs.add("dictionary_comparisons")
    obs.max("max_terms", len(want))
    return gen.show(r)


FUNCTIONS = {"sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "Abs"}


def multiplied_out(g, what, obs):
    """no sum is left as a factor of a numerator, no positive integer power of a sum is left, in arguments of functions neither"""
    stack = [g]
    while stack:
        t = stack.pop()
        n = type(t).__name__
        obs.add("nodes_checked")
        if n == "Prod" and any(type(f).__name__ == "Sum" for f in t.terms):
            raise Violation("not-expanded", "%s = %s still has the factor %s" % (what, srepr(g), srepr(t)))
        if (n == "Power" and type(t.base).__name__ == "Sum" and type(t.exponent).__name__ == "Rat"
                and t.exponent.value.denominator == 1 and t.exponent.value > 1):
            raise Violation("not-expanded", "%s = %s still has the power %s" % (what, srepr(g), srepr(t)))
        if n in FUNCTIONS:
            obs.add("function_arguments_checked")
            stack.append(t.inner)
        if n in ("Sum", "Prod"):
            stack.extend(t.terms)  # (merging exponents can leave an unexpanded exponent: e^(2*(y - 1)))


def fixed(tier):
    """every power of a sum of k symbols up to a bound: all multinomial coefficients"""
    out = []
    for k, top in ((2, 14), (3, 10), (4, 8)):
        for n in range(1, top + 1):
            for sgn in (1, -1):
                ts = [gen.V(s) for s in SYM[:k]]
                ts[-1] = ("neg", ts[-1]) if sgn < 0 else ts[-1]
                out.append({"k": "poly", "r": ("^", ("+",) + tuple(ts), gen.N(n)), "s": 1})
                ts[0] = ("*", gen.N(3, 2), ts[0], ts[0])
                if n < 7:
                    out.append({"k": "poly", "r": ("^", ("+",) + tuple(ts) + (gen.N(-2),), gen.N(n)), "s": 1})
    return [c for c in out if _fits(c["r"])]


def _fits(r):
    try:
        return len(pden(r)) < LIMIT
    except Big:
        return False


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "expand " + gen.show(gen.tup(case["r"]))
