"""C10 diff() is the derivative"""
from .. import gen, num
from ..common import *
from ..core import Violation
from simpy import diff as DIFF

ID = "C10"
RULE = (
    "a case is a random recipe and a variable; the expression diff() returns is evaluated against the derivative of the "
    "recipe computed by forward-mode (dual number) evaluation, at 8 points; also linearity, a variable that does not occur, "
    "and agreement of the function and the method; it counts when two points were decided; distinct by recipe and variable"
)
COUNT = {"quick": 8000, "thorough": 50000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 2500, "thorough": 8000}
ASSUMPTIONS = []


def make(rng, i, tier):
    prof = gen.PROFILES[("full", "rad", "trig", "full", "alg")[i % 5]]
    while True:
        r = gen.recipe(rng, prof, rng.choice([1, 2, 3, 3, 4]))
        if i % 25 == 12:
            # powers with the variable in the exponent, inside a function
            r = (rng.choice(["ln", "ln", "sin", "abs", "sqrt"]), ("^", gen.recipe(rng, prof, rng.choice([0, 0, 1])), gen.recipe(rng, prof, rng.choice([0, 0, 1]))))
            r = r if gen.tame(r) else ("ln", ("^", gen.V("x"), gen.V("y")))
        if i % 25 == 24:
            r = ("^", gen.recipe(rng, prof, rng.choice([0, 1, 2])), gen.recipe(rng, prof, rng.choice([0, 1])))
            r = r if gen.tame(r) else ("^", gen.V("x"), gen.V("x"))
        if rng.random() < 0.08:
            r = gen.decimals(rng, r)
        if gen.tame(r) and gen.variables(r):
            break
    return {"r": r, "v": rng.choice(["x", "x", "y", "z"]), "s": rng.getrandbits(40)}


def run(case, obs):
    r = gen.tup(case["r"])
    v = case["v"]
    names = sorted(gen.variables(r) | {v})
    pts = envs(case["s"], names, 8)
    with assumptions() as A:
        e = build(r, "op", pts)
        if e is None or not defined_somewhere(r, pts):
            return None
        if tree_size(e) > 250:
            return None
        X_ = X.Symbol(v)
        before = struct(e)
        what = "d/d%s of %s" % (v, srepr(e))
        d = call(what, lambda: e.diff(X_))
        if general_power(e, v):
            obs.add("general_powers")
    if struct(e) != before:
        raise Violation("mutated", what + " changed the expression")
    if not isinstance(d, Expr):
        raise Violation("not-an-expression", "%s is %r" % (what, d))
    d2 = call(what, lambda: DIFF(e, X_))
    if struct(d2) != struct(d):
        raise Violation("function-method", "%s: diff(f, x) gives %s and f.diff(x) gives %s" % (what, srepr(d2), srepr(d)))
    present = sorted(names_of(e))
    try:
        d3 = call("diff(%s, None)" % srepr(e), lambda: DIFF(e, None), allow=(ValueError,))
    except ValueError:
        if len(present) == 1:
            raise Violation("only-symbol", "diff(%s, None) raised ValueError" % srepr(e))
        obs.add("no_variable_refused")
    else:
        if len(present) != 1:
            raise Violation("only-symbol", "diff(%s, None) gave %r, which should have raised ValueError" % (srepr(e), d3))
        want = d if present == [v] else call(what, lambda: e.diff(X.Symbol(present[0])))
        if not isinstance(d3, Expr) or struct(d3) != struct(want):
            raise Violation("only-symbol", "diff(%s, None) gives %r" % (srepr(e), d3))
        obs.add("no_variable")
    if v not in names_of(e) and not (type(d).__name__ in ("Rat", "Float") and d.value == 0):
        raise Violation("constant", "%s is %s" % (what, srepr(d)))
    if names_of(d) - names_of(e):
        raise Violation("new-symbol", "%s = %s has new symbols" % (what, srepr(d)))
    n = judge(num.derivative(denoter(r), v), evaluator(d), pts, obs, A, gen.has_float(r),
              lambda: "%s = %s" % (what, srepr(d)), "derivative")
    for k in gen.ops(r):
        obs.add("op_" + k)
    return (gen.show(r), v) if n >= 2 else None


def general_power(e, v):
    return any(type(t).__name__ == "Power" and v in names_of(t.base) and v in names_of(t.exponent) for t in nodes(e))


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "d/d%s %s" % (case["v"], gen.show(gen.tup(case["r"])))
