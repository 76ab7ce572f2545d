"""C04 one form per value: order, grouping and like terms do not matter; equality is trustworthy"""
import random
from fractions import Fraction

from .. import gen, inv, num
from ..common import *
from ..core import Violation

ID = "C04"
RULE = (
    "a case either combines 2-6 random expressions by + (or *) in several random orders and groupings and compares the "
    "results, or collects random monomials against a dictionary model, or multiplies random powers against an exponent "
    "model, or compares two related recipes with ==, or walks every node of a built/expanded/differentiated/simplified/"
    "substituted tree for the canonical-form invariants; it counts when something was compared; distinct by input"
)
COUNT = {"quick": 7000, "thorough": 45000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 2500, "thorough": 8000}
ASSUMPTIONS = [
    "order independence of products is claimed for factors whose rational coefficient is positive (or for products of "
    "non-sums): -1 times a sum is distributed at once, so (-1*s)*t and -1*(s*t) are equal in value but not in form",
    "rational numbers under a root are collected by base, so 9*9^(1/4) and 3*... are not compared as products",
]
KINDS = ("sum", "prod", "poly", "pow", "inv", "inv", "eq")
PROFS = ("alg", "rad", "full", "trig", "full")


def make(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    seed = rng.getrandbits(40)
    prof = gen.PROFILES[PROFS[(i // len(KINDS)) % len(PROFS)]]
    if kind in ("sum", "prod"):
        n = rng.choice([2, 3, 3, 4, 5])
        rs = [gen.recipe(rng, prof, rng.choice([1, 2, 2, 3])) for _ in range(n)]
        if rng.random() < 0.5:
            rs.append(rng.choice(rs))
        if rng.random() < 0.4:
            # two that differ in one place somewhere
            a = gen.recipe(rng, prof, rng.choice([2, 3, 4]))
            if rng.random() < 0.5:
                a = (rng.choice(["sin", "cos", "atan", "ln"]), ("+", a, ("*", gen.V("y"), ("^", gen.V("x"), gen.N(2))), ("*", gen.V("z"), gen.V("y")), gen.V("x"),
                                                         ("*", gen.N(5), gen.V("z")), gen.N(rng.randint(1, 9))))
            rs = rs[:2] + [a, mutate(rng, a, prof)]
        return {"k": kind, "rs": rs, "s": seed}
    if kind == "poly":
        ms = []
        for _ in range(rng.randint(2, 9)):
            ms.append([list(rng.choice(gen.FRACS)) if rng.random() < 0.4 else [rng.choice(gen.SMALL), 1],
                       [rng.choice([0, 0, 1, 1, 2, 3, -1]) for _ in range(3)], rng.choice([0, 0, 0, 1, 2])])
        return {"k": kind, "ms": ms, "s": seed}
    if kind == "pow":
        fs = []
        for _ in range(rng.randint(2, 7)):
            e = [[rng.choice([-2, -1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3])], rng.choice([0, 0, 0, 1, -1, 2])]
            fs.append([rng.randint(0, 4), e])
        return {"k": kind, "fs": fs, "s": seed}
    if kind == "inv":
        return {"k": kind, "r": gen.recipe(rng, prof, rng.choice([2, 3, 3, 4])), "s": seed}
    r = gen.recipe(rng, prof, rng.choice([1, 2, 3]))
    return {"k": "eq", "a": r, "b": mutate(rng, r, prof), "s": seed}


def mutate(rng, r, prof):
    """a nearby recipe: reordered, with one leaf or operator changed, or rewritten to something equal"""
    c = rng.random()
    ks = gen.kids(r)
    if not ks or c < 0.25:
        o = rng.random()
        if r[0] == "n" and o < 0.6:
            return gen.N(r[1] + rng.choice([1, -1, r[2]]), r[2])
        if r[0] == "v" and o < 0.6:
            return gen.V(rng.choice(prof.syms))
        if o < 0.3:
            return ("*", r, gen.N(1))
        if o < 0.5:
            return ("neg", ("neg", r))
        if o < 0.7:
            return ("-", ("+", r, gen.V("x")), gen.V("x"))
        return ("abs", r)
    if r[0] in ("+", "*") and c < 0.6:
        ks = ks[:]
        rng.shuffle(ks)
        return (r[0],) + tuple(ks)
    i = rng.randrange(len(ks))
    if r[0] == "log" and i == 1:
        return r
    return gen.with_kids(r, ks[:i] + [mutate(rng, ks[i], prof)] + ks[i + 1:])


# ---------------------------------------------------------------- order and grouping


def combine(rng, items, op):
    items = list(items)
    rng.shuffle(items)
    if rng.random() < 0.25:
        return X.Sum(items) if op == "+" else X.Prod(items)
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        a, b = items.pop(i), items.pop(i)
        items.insert(i, a + b if op == "+" else a * b)
    return items[0]


BAD = ("Infinity", "NegInfinity", "NaN", "Float")


def has_any(e, names):
    return any(type(t).__name__ in names for t in nodes(e))


def coeff_sign(e):
    if type(e).__name__ == "Rat":
        return e.value
    if type(e).__name__ == "Prod" and type(e.terms[0]).__name__ == "Rat":
        return e.terms[0].value
    return Fraction(1)


def radical(e):
    ts = e.terms if type(e).__name__ == "Prod" else [e]
    return any(type(t).__name__ == "Power" and type(t.base).__name__ == "Rat" for t in ts)


def sumlike(e):
    ts = e.terms if type(e).__name__ == "Prod" else [e]
    return any(type(t).__name__ == "Sum" or type(t).__name__ == "Power" and type(t.base).__name__ in ("Sum", "Prod")
               for t in ts)


def order(case, obs):
    op = "+" if case["k"] == "sum" else "*"
    ts = []
    for r in case["rs"]:
        r = gen.tup(r)
        pts = envs(case["s"], sorted(gen.variables(r)), 3)
        e = build(r, "op", pts)
        if e is None or has_any(e, BAD) or not defined_somewhere(r, pts):
            continue
        if op == "*":
            if coeff_sign(e) == 0 or radical(e):
                continue
            if coeff_sign(e) < 0 and any(sumlike(t) for t in ts + [e]):
                e = call("multiplying by -1", lambda: e * -1)
                if coeff_sign(e) < 0:
                    continue
            if sumlike(e) and any(coeff_sign(t) < 0 for t in ts):
                continue
        ts.append(e)
    if len(ts) < 2:
        return None
    rng = random.Random(case["s"])
    before = [struct(t) for t in ts]
    what = "combining %s by %s" % ([srepr(t, 80) for t in ts], op)
    res = [call(what, lambda: combine(rng, ts, op)) for _ in range(4)]
    obs.add("orders_compared", 3)
    s0 = struct(res[0])
    for r in res[1:]:
        if struct(r) != s0 or not (r == res[0]) or not (res[0] == r):
            raise Violation("order", "%s gives %s or %s depending on order and grouping" % (what, srepr(res[0]), srepr(r)))
    if [struct(t) for t in ts] != before:
        raise Violation("order", "%s changed an operand" % what)
    return (op, tuple(sorted(map(str, before))))


# ---------------------------------------------------------------- models

SYM = ("x", "y", "z")


def atom(k):
    """an irrational multiplier / opaque factor"""
    return (None, X.sin(X.Symbol("w")), X.pi)[k]


def poly(case, obs):
    model = {}
    terms = []
    for (p, q), ex, at in case["ms"]:
        c = Fraction(p, q)
        key = (tuple(ex), at)
        model[key] = model.get(key, 0) + c
        t = X.Rat(c)
        for s, n in zip(SYM, ex):
            if n:
                t = t * X.Symbol(s) ** n
        if at:
            t = t * atom(at)
        terms.append(t)
    rng = random.Random(case["s"])
    e = call("adding %s" % [srepr(t, 60) for t in terms], lambda: combine(rng, terms, "+"))
    got = {}
    for t in e.terms if type(e).__name__ == "Sum" else [e]:
        c, key = read_monomial(t)
        if key in got:
            raise Violation("like-terms", "%s has two terms in the same monomial" % srepr(e))
        got[key] = c
    model = {k: v for k, v in model.items() if v != 0}
    if got.get(((0, 0, 0), 0)) == 0:
        got.pop(((0, 0, 0), 0))
    if got != model:
        raise Violation("like-terms", "adding %s gives %s" % ([srepr(t, 60) for t in terms], srepr(e)))
    obs.add("monomials_collected", len(terms) - len(model))
    return ("poly", str(case["ms"]))


def read_monomial(t):
    c, ex, at = Fraction(1), [0, 0, 0], 0
    for f in t.terms if type(t).__name__ == "Prod" else [t]:
        n = type(f).__name__
        if n == "Rat":
            c *= f.value
        elif n == "Symbol" and f.name in SYM:
            ex[SYM.index(f.name)] += 1
        elif n == "Power" and type(f.base).__name__ == "Symbol" and type(f.exponent).__name__ == "Rat":
            ex[SYM.index(f.base.name)] += int(f.exponent.value)
        elif n == "sin":
            at = 1
        elif n == "Pi":
            at = 2
        else:
            raise Violation("like-terms", "unexpected factor %s in %s" % (srepr(f), srepr(t)))
    return c, (tuple(ex), at)


def base(k):
    x, y = X.Symbol("x"), X.Symbol("y")
    return (x, y, X.sin(x), x + y, X.log(y + 2))[k]


def pows(case, obs):
    a = X.Symbol("a")
    model = {}
    fs = []
    for k, ((p, q), ca) in case["fs"]:
        m = model.setdefault(k, [Fraction(0), 0])
        m[0] += Fraction(p, q)
        m[1] += ca
        fs.append(X.Power(base(k), X.Rat(Fraction(p, q)) + ca * a))
    rng = random.Random(case["s"])
    what = "multiplying %s" % [srepr(f, 60) for f in fs]
    e = call(what, lambda: combine(rng, fs, "*"))
    want = {}
    for k, (q, ca) in model.items():
        if q or ca:
            want[struct(base(k))] = (q, ca)
    got = {}
    for f in e.terms if type(e).__name__ == "Prod" else [e]:
        if type(f).__name__ == "Rat" and f.value == 1:
            continue
        b, x = (f.base, f.exponent) if type(f).__name__ == "Power" else (f, X.Rat(1))
        q, ca = Fraction(0), 0
        for t in x.terms if type(x).__name__ == "Sum" else [x]:
            if type(t).__name__ == "Rat":
                q += t.value
            elif type(t).__name__ == "Symbol":
                ca += 1
            else:
                ca += t.terms[0].value
        if struct(b) in got:
            raise Violation("exponents", "%s has the same base twice" % srepr(e))
        got[struct(b)] = (q, ca)
    if got != want:
        raise Violation("exponents", "%s gives %s" % (what, srepr(e)))
    obs.add("powers_merged", len(fs) - len(want))
    return ("pow", str(case["fs"]))


# ---------------------------------------------------------------- invariants


def invariants(case, obs):
    r = gen.tup(case["r"])
    pts = envs(case["s"], sorted(gen.variables(r)), 3)
    e = build(r, "op", pts)
    if e is None or not defined_somewhere(r, pts):
        return None
    x, y = X.Symbol("x"), X.Symbol("y")
    steps = [("build", lambda: e), ("subs", lambda: e.subs({"x": y})), ("subs2", lambda: e.subs({"y": x + 1})),
             ("diff", lambda: e.diff(x)), ("simplify", lambda: e.simplify())]
    if e.expandable():
        steps.append(("expand", lambda: e.expand()))
    if type(e).__name__ == "Sum":
        steps.append(("factor", lambda: e.factor()))
    for name, f in steps:
        try:
            g = f()
        except (NotImplementedError, ArithmeticError, ValueError, AttributeError, AssertionError, TypeError, RecursionError):
            obs.add("raised_" + name)  # whether it may raise is decided by other properties
            continue
        w = inv.broken(g)
        if w:
            raise Violation("canonical", "%s of %s gives %s, which contains %s: %s"
                            % (name, srepr(e), srepr(g), w[0], srepr(w[1])))
        obs.add("trees_" + name)
        obs.add("nodes_walked", tree_size(g))
    return ("inv", gen.show(r))


# ---------------------------------------------------------------- equality


def equality(case, obs):
    ra, rb = gen.tup(case["a"]), gen.tup(case["b"])
    names = sorted(gen.variables(ra) | gen.variables(rb))
    pts = envs(case["s"], names, 6)
    a, a2, b = build(ra, "op", pts), build(ra, "op", pts), build(rb, "op", pts)
    if a is None or b is None or a2 is None:
        return None
    if not (defined_somewhere(ra, pts) and defined_somewhere(rb, pts)):
        return None
    if not (a == a2) or a != a2 or struct(a) != struct(a2):
        raise Violation("equality", "building %s twice gives things that are not equal" % gen.show(ra))
    ab, ba = a == b, b == a
    if type(ab) is not bool or type(ba) is not bool or ab != ba or (a != b) == ab:
        raise Violation("equality", "%s == %s is %r, the other way round %r, != is %r" % (srepr(a), srepr(b), ab, ba, a != b))
    if struct(a) == struct(b) and not ab:
        raise Violation("equality", "%s and %s are the same tree but not equal" % (srepr(a), srepr(b)))
    if not ab:
        obs.add("unequal_pairs")
        return ("ne", gen.show(ra), gen.show(rb))
    obs.add("equal_pairs")
    if repr(a) != repr(b) and not has_any(a, BAD):
        raise Violation("equality", "%s == %s but they print differently" % (srepr(a), srepr(b)))
    with assumptions() as A:
        gen.build(ra), gen.build(rb)
    inexact = gen.has_float(ra) or gen.has_float(rb)
    if judge(evaluator(a), evaluator(b), pts, obs, A, inexact,
             lambda: "%s == %s although they differ in value" % (srepr(a), srepr(b)), "equality") == 0:
        return None
    return ("eq", gen.show(ra), gen.show(rb))


def run(case, obs):
    obs.add("kind_" + case["k"])
    return {"sum": order, "prod": order, "poly": poly, "pow": pows, "inv": invariants, "eq": equality}[case["k"]](case, obs)


def shrink(case, fails):
    if case["k"] == "inv":
        return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))
    key = {"sum": "rs", "prod": "rs", "poly": "ms", "pow": "fs"}.get(case["k"])
    if not key:
        return case
    ls = case[key]
    i = 0
    while i < len(ls) and len(ls) > 1:
        t = ls[:i] + ls[i + 1:]
        if fails(dict(case, **{key: t})):
            ls = t
        else:
            i += 1
    if key == "rs":
        for i in range(len(ls)):
            ls = ls[:i] + [gen.shrink(gen.tup(ls[i]), lambda s: fails(dict(case, rs=ls[:i] + [s] + ls[i + 1:])))] + ls[i + 1:]
    return dict(case, **{key: ls})


def describe(case):
    if case["k"] in ("sum", "prod"):
        return "%s of %s" % (case["k"], [gen.show(gen.tup(r)) for r in case["rs"]])
    if case["k"] == "inv":
        return "invariants of " + gen.show(gen.tup(case["r"]))
    if case["k"] == "eq":
        return "%s == %s" % (gen.show(gen.tup(case["a"])), gen.show(gen.tup(case["b"])))
    return case
