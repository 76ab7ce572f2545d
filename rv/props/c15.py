"""C15 questions about an expression, and the parts it is taken into, are answered truthfully"""
import random
from fractions import Fraction

from .. import families, gen, integrands, num
from ..common import *
from ..core import Violation
from simpy import expr as EXM, regex, utils

ID = "C15"
RULE = (
    "a case is an expression (random or the result of a chain of operations) that is asked for its symbols, what it contains, which classes it has, "
    "its nesting, whether it is an integer or prints as a subtraction, its numerator and denominator, its constant factor, its base and "
    "exponent, and whether it is the same as another up to the variable; every answer is compared with one computed by the monitor from the tree and from "
    "values at sample points; it counts when at least eight answers were compared; distinct by expression"
)
COUNT = {"quick": 14000, "thorough": 130000}
MIN = {"quick": 5000, "thorough": 15000}
OPS = ["diff", "expand", "simplify", "factor", "square", "inverse", "timesy", "shift", "subs", "neg"]
CLASSES = ["Sum", "Prod", "Power", "sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "Abs", "Rat", "Float", "Symbol",
           "Pi", "E", "TrigFunction", "Num", "SingleFunc"]
NAMES = ["x", "y", "z", "t", "theta", "e1", "x1", "xx", "pi_"]


def relabel(rng, r):
    m = {}

    def go(r):
        if r[0] == "v":
            return ("v", m.setdefault(r[1], rng.choice(NAMES)))
        ks = gen.kids(r)
        return gen.with_kids(r, [go(k) for k in ks]) if ks else r

    return go(r)


def make(rng, i, tier):
    c = rng.random()
    if c < 0.65:
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "full", "trig"]), rng.choice([0, 1, 2, 3, 3]))
    else:
        r = integrands.make(rng, rng.choice(integrands.NAMES))
    if rng.random() < 0.1:
        b = gen.V(rng.choice("xy")) if rng.random() < 0.5 else gen.recipe(rng, "alg", 1)
        r = ("*", r, ("^", b, ("f", rng.choice([-0.5, -1.5, 2.5, -2.0, 0.25, -0.75]))))
        if not gen.tame(r):
            r = ("*", gen.V("y"), ("^", gen.V("x"), ("f", -0.5)))
    if rng.random() < 0.06:
        r = gen.decimals(rng, r)
    if rng.random() < 0.4:
        r = relabel(rng, r)
    return {"r": r, "chain": [rng.choice(OPS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))], "s": rng.getrandbits(40)}


def apply(e, k, x):
    y = X.Symbol("y")
    if k == "diff":
        return e.diff(x)
    if k == "expand":
        return e.expand() if e.expandable() else e
    if k == "simplify":
        return e.simplify()
    if k == "factor":
        return e.factor() if type(e).__name__ == "Sum" else e
    return {"square": lambda: e**2, "inverse": lambda: 1 / e, "timesy": lambda: e * (y + 1) / 3, "shift": lambda: e + y**2, "neg": lambda: -e,
            "subs": lambda: e.subs({x.name: y + x})}[k]()


def run(case, obs):
    r = gen.tup(case["r"])
    rng = random.Random(case["s"])
    var = sorted(gen.variables(r))[0] if gen.variables(r) else "x"
    x = X.Symbol(var)
    pts = envs(case["s"], sorted(gen.variables(r) | {"x", "y", var}), 5)
    if not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    if e is None:
        return None
    n = 0
    seen = []
    for k in [None] + case["chain"]:
        if k:
            if blowup(e) > 50 or tree_size(e) > 60 or any(type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat" and abs(t.exponent.value) > 9 for t in nodes(e)):
                break
            try:
                e = apply(e, k, x)
            except Exception:
                break  # judged by the properties of that operation
        if any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN") for t in nodes(e)) or tree_size(e, 400) > 300:
            break
        n += ask(e, x, pts, rng, obs)
        seen.append(e)
    if n < 8:
        return None
    for k in case["chain"]:
        obs.add("after_" + k)
    return (gen.show(r), tuple(case["chain"]))


def no(mech, e, msg):
    raise Violation(mech, "%s: %s" % (srepr(e), msg))


def ask(e, x, pts, rng, obs):
    n = 0
    have = names_of(e)
    # symbols
    syms = call("symbols()", e.symbols)
    got = [s.name for s in syms]
    if sorted(got) != sorted(have) or any(type(s).__name__ != "Symbol" for s in syms):
        no("symbols", e, "symbols() is %r, but the symbols in it are %s" % (got, sorted(have)))
    for name in sorted(have | {"x", "q", "x1"}):
        s = X.Symbol(name)
        if call("contains", lambda: e.contains(s)) is not (name in have):
            no("contains", e, "contains(%s) is %r" % (name, e.contains(s)))
        k = call("nesting", lambda: X.nesting(e, s))
        if (k > 0) != (name in have) or k < 0:
            no("nesting", e, "nesting with respect to %s is %r" % (name, k))
        n += 2
        if name not in have:
            d = call("diff", lambda: e.diff(s))
            if type(d).__name__ not in ("Rat", "Float") or d.value != 0:
                no("independent", e, "the derivative by %s, which is not in it, is %s" % (name, srepr(d)))
            if struct(call("subs", lambda: e.subs({name: 3}))) != struct(call("subs", lambda: e.subs({}))):
                no("independent", e, "substituting %s, which is not in it, changes it" % name)
            n += 2
    count = sum(1 for t in nodes(e) if type(t).__name__ == "Symbol")
    if call("count_symbols", lambda: utils.count_symbols(e)) != count:
        no("count_symbols", e, "count_symbols is %r, not %d" % (utils.count_symbols(e), count))
    n += 2
    # classes
    for c in rng.sample(CLASSES, 6):
        cls = getattr(X, c)
        want = any(isinstance(t, cls) for t in nodes(e))
        if call("has", lambda: e.has(cls)) is not want:
            no("has", e, "has(%s) is %r" % (c, e.has(cls)))
        n += 1
    # numbers
    if type(e).__name__ == "Rat" or type(e).__name__ not in ("Float",):
        want = type(e).__name__ == "Rat" and e.value.denominator == 1
        if bool(call("is_int", lambda: e.is_int)) != want:
            no("is_int", e, "is_int is %r" % (e.is_int,))
        n += 1
    # a sum prints with a minus exactly in front of the terms that say so, and -t then says otherwise
    if e.is_subtraction and type(e).__name__ != "Float":
        if call("negation", lambda: -e).is_subtraction:
            no("is_subtraction", e, "both it and its negative %s are subtractions" % srepr(-e))
        n += 1
    # parts
    if type(e).__name__ == "Prod":
        nd = call("numerator_denominator", lambda: e.numerator_denominator)
        if len(nd) != 2:
            no("numerator_denominator", e, "%r" % (nd,))
        p, q = nd
        m = judge(evaluator(e), lambda env, F: num.val(p, env, F) * num._reciprocal(num.val(q, env, F), F), pts[:4], obs, None, True,
                  lambda: "%s has numerator %s and denominator %s" % (srepr(e), srepr(p), srepr(q)), "numerator-denominator", lost_ok=True)
        for part, w in ((p, "numerator"), (q, "denominator")):
            for t in part.terms if type(part).__name__ == "Prod" else [part]:
                if type(t).__name__ == "Power" and type(t.exponent).__name__ in ("Rat", "Float") and t.exponent.value < 0:
                    no("negative-power", e, "its %s %s has a negative power" % (w, srepr(part)))
                if type(t).__name__ == "Rat" and t.value.denominator != 1:
                    no("fraction-left", e, "its %s %s has a fraction" % (w, srepr(part)))
        n += m
        obs.add("split_into_fraction", 1 if m else 0)
    rest, c = call("remove_const_factor", lambda: EXM.remove_const_factor(e, include_factor=True))
    if names_of(c):
        no("const-factor", e, "its constant factor %s is not constant" % srepr(c))
    n += judge(evaluator(e), lambda env, F: num.val(rest, env, F) * num.val(c, env, F), pts[:3], obs, None, True,
               lambda: "%s is not %s times its constant factor %s" % (srepr(e), srepr(rest), srepr(c)), "const-factor", lost_ok=True)
    if type(e).__name__ == "Prod":
        left = rest.terms if type(rest).__name__ == "Prod" else [rest]
        if have and any(not names_of(t) for t in left):
            no("const-factor", e, "a constant is left in %s" % srepr(rest))
    if struct(call("remove_const_factor", lambda: EXM.remove_const_factor(e))) != struct(rest):
        no("const-factor", e, "with and without the factor the rest differs")
    b, k = call("deconstruct_power", lambda: EXM.deconstruct_power(e))
    n += judge(evaluator(e), lambda env, F: num.val(X.Power(b, k, skip_checks=True), env, F), pts[:2], obs, None, True,
               lambda: "%s is not %s to the %s" % (srepr(e), srepr(b), srepr(k)), "base-exponent", lost_ok=True)
    # up to the variable
    w = X.Symbol("w")
    if x.name in have and "w" not in have:
        f = call("subs", lambda: e.subs({x.name: w}))
        same = call("eq_with_var", lambda: utils.eq_with_var((e, x), (f, w)))
        if same not in (True, False):
            no("eq-with-var", e, "eq_with_var returned %r" % (same,))
        if same is not True and shape(e, x.name) == shape(f, "w"):
            no("eq-with-var", e, "is not recognised with %s renamed: %s" % (x.name, srepr(f)))
        g = call("operation", lambda: f + w)
        if call("eq_with_var", lambda: utils.eq_with_var((e, x), (g, w))) and shape(e, x.name) != shape(g, "w"):
            no("eq-with-var", e, "is taken to be %s up to the variable" % srepr(g))
        n += 2
    obs.add("answers", n)
    return n


def shape(e, name):
    if type(e).__name__ == "Symbol":
        return "#" if e.name == name else "S" + e.name
    ks = kids_of(e)
    return (type(e).__name__,) + tuple(shape(k, name) for k in ks) if ks else struct(e)


def shrink(case, fails):
    for c in range(len(case["chain"])):
        t = dict(case, chain=case["chain"][:c])
        if fails(t):
            case = t
            break
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "%s then %s" % (gen.show(gen.tup(case["r"])), case["chain"])
