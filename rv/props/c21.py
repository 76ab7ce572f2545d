"""C21 replace() and count()"""
import random
from fractions import Fraction

from .. import families, gen, integrands, num
from ..common import *
from ..core import Violation
from simpy import regex

ID = "C21"
RULE = (
    "a case is an expression, something to look for (one of its own nodes, a symbol, a number, something absent, a class of functions, a condition) and something to put "
    "in its place; the value of what replace / replace_factory / kinder_replace / replace_class returns is compared, at sample points, with the "
    "value of the original tree in which every outermost occurrence is given the value of the replacement, and count / general_count / "
    "general_contains with the monitor's own count; it counts when two points were decided; distinct by all three parts"
)
COUNT = {"quick": 30000, "thorough": 250000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 9000, "thorough": 25000}
TRIG = ["sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "Abs"]


def make(rng, i, tier):
    c = rng.random()
    if c < 0.7:
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "trig"]), rng.choice([1, 2, 3, 3]))
    else:
        r = integrands.make(rng, rng.choice(integrands.NAMES))
    if rng.random() < 0.06:
        r = gen.decimals(rng, r)
    new = rng.choice([gen.V("t"), gen.V("x"), gen.N(2), gen.N(0), gen.N(-1), gen.N(1, 2), ("+", gen.V("x"), gen.N(1)), ("neg", gen.V("t")), ("sin", gen.V("x")),
                      ("^", gen.V("t"), gen.N(2)), ("*", gen.N(2), gen.V("t")), ("+", gen.V("t"), gen.V("x"))])
    if rng.random() < 0.3:
        new = gen.recipe(rng, "full", 1)
    return {"r": r, "new": new, "how": rng.choice(["node", "node", "node", "symbol", "number", "absent", "class", "condition", "many"]), "s": rng.getrandbits(40)}


def swapped(e, hit, F, env, memo):
    """value of e with every outermost node for which hit(node) is a function valued by that function"""
    f = hit(e)
    if f is not None:
        return f(lambda t: swapped(t, hit, F, env, memo))
    n = type(e).__name__
    if n == "Sum":
        s = F.rat(Fraction(0))
        for t in e.terms:
            s = s + swapped(t, hit, F, env, memo)
        return F.check(s)
    if n == "Prod":
        s = F.rat(Fraction(1))
        for t in e.terms:
            s = s * swapped(t, hit, F, env, memo)
        return F.check(s)
    if n == "Power":
        b = swapped(e.base, hit, F, env, memo)
        x = e.exponent
        if type(x).__name__ == "Rat" and x.value.denominator == 1 and hit(x) is None:
            return num.power(b, None, F, int(x.value))
        x = swapped(x, hit, F, env, memo)
        r = round(float(x))
        if abs(x - r) < F.eps and abs(r) < 1000:
            return num.power(b, None, F, int(r))
        return num.power(b, x, F)
    if n == "log":
        v = num.logv(swapped(e.inner, hit, F, env, memo), F)
        return v * num._reciprocal(num.logv(swapped(e.base, hit, F, env, memo), F), F)
    if n == "Abs":
        return abs(swapped(e.inner, hit, F, env, memo))
    if n in num.FUNCS:
        return num.trig(n, swapped(e.inner, hit, F, env, memo), F)
    return num.val(e, env, F)


def run(case, obs):
    r, new = gen.tup(case["r"]), gen.tup(case["new"])
    rng = random.Random(case["s"])
    names = sorted(gen.variables(r) | gen.variables(new) | {"x", "t"})
    pts = envs(case["s"], names, 8)
    if not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    with assumptions() as B:
        g = build(new, "op", pts)
    if e is None or g is None or tree_size(e) > 120:
        return None
    all_ = list(nodes(e))
    how = case["how"]
    valnew = lambda F, env: (lambda _: num.den(new, env, F))
    if how == "class":
        have = sorted({type(t).__name__ for t in all_} & set(TRIG)) or ["sin"]
        names_c = [rng.choice(have)] + ([rng.choice(TRIG)] if rng.random() < 0.4 else [])
        names_c = sorted(set(names_c))
        kinds = [rng.choice(["cos", "square", "double", "inner"]) for _ in names_c]
        mk = {"cos": lambda t: X.cos(t), "square": lambda t: t**2, "double": lambda t: 2 * t + 1, "inner": lambda t: t}
        what = "replace_class(%s, %s, %s)" % (srepr(e), names_c, kinds)
        fn = lambda: regex.replace_class(e, [getattr(X, c) for c in names_c], [mk[k] for k in kinds])

        def hits(F, env):
            ev = {"cos": lambda v: F.cos(v), "square": lambda v: F.check(v * v), "double": lambda v: 2 * v + 1, "inner": lambda v: v}

            def hit(t):
                n = type(t).__name__
                if n in names_c:
                    return lambda rec: ev[kinds[names_c.index(n)]](rec(t.inner))
                return None

            return hit

        is_hit = lambda t: type(t).__name__ in names_c
        old = None
    elif how == "condition":
        k = rng.choice(["powers", "sums", "trig", "symbols"])
        is_hit = {"powers": lambda t: type(t).__name__ == "Power", "sums": lambda t: type(t).__name__ == "Sum",
                  "trig": lambda t: type(t).__name__ in TRIG, "symbols": lambda t: type(t).__name__ == "Symbol"}[k]
        what = "replacing all %s of %s by %s" % (k, srepr(e), srepr(g))
        fns = [lambda: regex.replace_factory(is_hit, lambda t: g)(e), lambda: regex.kinder_replace(e, lambda t: g if is_hit(t) else None),
               lambda: regex.replace_factory_list([is_hit, lambda t: False], [lambda t: g, lambda t: t])(e)]
        fn = fns[case["s"] % 3]
        hits = lambda F, env: (lambda t: valnew(F, env) if is_hit(t) else None)
        old = None
        c = call("general_count", lambda: regex.general_count(e, is_hit))
        if c != outermost(e, is_hit):
            raise Violation("count", "general_count(%s, %s) is %r, not %d" % (srepr(e), k, c, outermost(e, is_hit)))
        if call("general_contains", lambda: regex.general_contains(e, is_hit)) is not any(is_hit(t) for t in all_):
            raise Violation("contains", "general_contains(%s, %s) is wrong" % (srepr(e), k))
    elif how == "many":
        # two replacements at once, which must not see each other's results
        a, b = X.Symbol("x"), X.Symbol("y")
        what = "swapping x and y in %s" % srepr(e)
        isx, isy = (lambda t: type(t).__name__ == "Symbol" and t.name == "x"), (lambda t: type(t).__name__ == "Symbol" and t.name == "y")
        fns = [lambda: regex.replace_factory_list([isx, isy], [lambda t: b, lambda t: a])(e),
               lambda: regex.kinder_replace_many(e, [lambda t: b if isx(t) else None, lambda t: a if isy(t) else None])]
        fn = fns[case["s"] % 2]
        for env in pts:
            env.setdefault("y", Fraction(777, 997))
        hits = lambda F, env: (lambda t: (lambda _: env["y"]) if isx(t) else (lambda _: env["x"]) if isy(t) else None)
        is_hit = lambda t: isx(t) or isy(t)
        old = None
    else:
        if how == "node":
            old = rng.choice(all_)
        elif how == "symbol":
            old = X.Symbol(rng.choice(sorted(names_of(e)) or ["x"]))
        elif how == "number":
            ns = [t for t in all_ if type(t).__name__ == "Rat"]
            old = X.Rat(rng.choice(ns).value) if ns else X.Rat(2)
        else:
            old = rng.choice([X.Symbol("q"), X.sin(X.Symbol("q")), X.Rat(7919), X.Symbol("xx"), e + 1 if type(e).__name__ != "Rat" else X.Rat(7919)])
        so = by_value(struct(old))
        is_hit = lambda t: by_value(struct(t)) == so
        what = "replace(%s, %s, %s)" % (srepr(e), srepr(old), srepr(g))
        fn = lambda: regex.replace(e, old, g)
        hits = lambda F, env: (lambda t: valnew(F, env) if is_hit(t) else None)
        c = call("count", lambda: regex.count(e, old))
        # (count() takes 0.5 and 1/2 for different things where replace() does not: either is right)
        so_ = struct(old)
        right = (outermost(e, is_hit), outermost(e, lambda t: struct(t) == so_))
        if c not in right:
            raise Violation("count", "count(%s, %s) is %r, not %d" % (srepr(e), srepr(old), c, right[0]))
        obs.add("counted")
    # exponents must stay small
    for env in pts[:2]:
        for t in all_:
            if type(t).__name__ == "Power":
                try:
                    v = swapped(t.exponent, hits(num.FLOAT, num.envf(env)), num.FLOAT, num.envf(env), None)
                    if abs(v) > 40:
                        return None
                except (num.Undef, ArithmeticError, ValueError):
                    return None
    s0 = struct(e)
    ref = lambda env, F: swapped(e, hits(F, env), F, env, None)
    ok = False
    for env in pts:
        try:
            ref(num.envf(env), num.FLOAT)
            ok = True
            break
        except (num.Undef, ArithmeticError, ValueError):
            continue
    if not ok:
        return None
    with assumptions() as A:
        h = call(what, fn)
    A.nonneg.update(B.nonneg)
    A.positive.update(B.positive)
    A.principal.update(B.principal)
    A.broken = A.broken or B.broken
    if not isinstance(h, Expr):
        raise Violation("not-an-expression", "%s returned %r" % (what, h))
    if struct(e) != s0:
        raise Violation("mutated", what + " changed its argument")
    n_hits = outermost(e, is_hit)
    obs.add("occurrences", n_hits)
    obs.add("how_" + how)
    inexact = gen.has_float(r) or gen.has_float(new)
    if n_hits == 0 and not inexact:
        obs.add("nothing_to_replace")
        if how in ("node", "symbol", "number", "absent") and names_of(h) != names_of(e):
            raise Violation("changed", "%s = %s" % (what, srepr(h)))
    n = judge(ref, evaluator(h), pts, obs, A, inexact, lambda: "%s = %s" % (what, srepr(h)))
    if n < (2 if names_of(h) else 1):
        return None
    return (gen.show(r), gen.show(new), how, what if len(what) < 300 else what[:300])


def by_value(s):
    """Float(0.5) equals Rat(1, 2) in simpy: numbers count by their value"""
    if s[0] == "Float":
        v = float(s[1])
        if v == v and v not in (float("inf"), -float("inf")):
            f = Fraction(v)
            return ("Rat", f.numerator, f.denominator)
    return tuple(by_value(t) if isinstance(t, tuple) else t for t in s)


def outermost(e, is_hit):
    if is_hit(e):
        return 1
    return sum(outermost(t, is_hit) for t in kids_of(e))


def shrink(case, fails):
    case = dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))
    return dict(case, new=gen.shrink(gen.tup(case["new"]), lambda s: fails(dict(case, new=s))))


def describe(case):
    return "%s, %s := %s" % (gen.show(gen.tup(case["r"])), case["how"], gen.show(gen.tup(case["new"])))
