"""shared by C18 (repr) and C19 (LaTeX): expressions that stress precedence, and the reading-back comparison"""
import random
from fractions import Fraction

from . import families, gen, integrands, num, reading
from .common import *
from .core import Violation

NAMES = ["x", "y", "theta", "n_1", "xy", "A", "lambda0", "k", "zz"]
FL = [0.5, -2.25, 1e-07, 123456.75, 1.5e+16, 3.0, -0.125]


def awkward(rng, d=2):
    """numbers, signs, fractions, powers, functions in every position"""
    sub = lambda: awkward(rng, d - 1)
    if d <= 0:
        c = rng.random()
        if c < 0.45:
            return ("v", rng.choice(NAMES[:3]) if rng.random() < 0.8 else rng.choice(NAMES))
        if c < 0.75:
            return gen.rnum(rng)
        if c < 0.82:
            return ("f", rng.choice(FL))
        return rng.choice([("pi",), ("e",), ("^", ("v", "x"), gen.N(-1)), ("^", ("v", "x"), gen.N(1, 2)), ("neg", ("v", "y")), ("+", ("v", "x"), gen.N(1)),
                           ("sqrt", gen.N(2)), ("^", gen.N(2), gen.N(1, 3)), ("abs", ("v", "x")), ("/", gen.N(1), gen.N(3))])
    k = rng.choice(["^", "^", "^", "*", "*", "/", "/", "-", "+", "neg", "f", "log", "abs", "ln", "n^", "^n"])
    if k == "n^":
        # a number of any kind as the base of a power with a symbolic exponent
        return ("^", rng.choice([("f", rng.choice(FL)), ("f", -0.75), gen.rnum(rng), ("pi",), ("e",), ("neg", gen.rnum(rng))]), rng.choice([("v", "x"), sub()]))
    if k == "^n":
        return ("^", rng.choice([("v", "x"), ("+", ("v", "x"), gen.N(1)), sub()]), rng.choice([("f", rng.choice([0.5, -0.5, 2.5, -1.25])), gen.rnum(rng), ("neg", ("v", "y"))]))
    if k == "f":
        return (rng.choice(["sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan"]), sub())
    if k == "log":
        return ("log", sub(), rng.choice([gen.N(2), gen.N(10), gen.N(3, 2), ("v", "y"), ("pi",), ("f", 2.5), ("+", ("v", "y"), gen.N(2)), gen.N(12), ("abs", ("v", "x"))]))
    if k in ("neg", "abs", "ln"):
        return (k, sub())
    if k == "*" and rng.random() < 0.4:
        return ("*", sub(), sub(), sub())
    return (k, sub(), sub())


def make(rng, i, tier):
    c = i % 4
    if c in (0, 1):
        while True:
            r = awkward(rng, rng.choice([1, 2, 2, 3]))
            if gen.tame(r) and gen.size(r) < 40:
                break
    elif c == 2:
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "trig"]), rng.choice([2, 3, 3]))
    else:
        r = integrands.make(rng, rng.choice(integrands.NAMES)) if rng.random() < 0.6 else families.member(rng)[1]
    return {"r": r, "first": rng.choice(["", "", "", "diff", "expand", "simplify", "factor", "square", "halve", "derive2", "integrate"]), "s": rng.getrandbits(40)}


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "%s, %s" % (gen.show(gen.tup(case["r"])), case["first"] or "as built")


def obtain(case, obs):
    """the expression to be printed"""
    import warnings
    r = gen.tup(case["r"])
    pts = envs(case["s"], sorted(gen.variables(r)), 4)
    if not gen.tame(r) or not defined_somewhere(r, pts):
        return None, None
    e = build(r, "op", pts)
    k = case["first"]
    if e is not None and k:
        if blowup(e) > 40 or tree_size(e) > 50:
            return None, None
        x = X.Symbol("x")

        def op():
            if k == "diff":
                return e.diff(x)
            if k == "derive2":
                return e.diff(x).diff(x)
            if k == "expand":
                return e.expand() if e.expandable() else e
            if k == "simplify":
                return e.simplify()
            if k == "factor":
                return e.factor() if type(e).__name__ == "Sum" else e
            if k == "square":
                return (e + 1) ** 2 * -3 / 7
            if k == "halve":
                return X.sqrt(e) / -2
            from simpy import integrate
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return integrate(e, x)

        e = guarded(k, op, r, pts)
    if not isinstance(e, Expr) or tree_size(e, 500) > 250:
        return None, None
    if any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN") for t in nodes(e)):
        return None, None
    return e, r


def reads(case, obs, how, read):
    e, r = obtain(case, obs)
    if e is None:
        return None
    names = names_of(e)
    s0 = struct(e)
    # (expressions with no real value at all are not printed faithfully, e.g. (-1)^(5/2))
    pts = envs(case["s"] + 1, sorted(names), 6)
    if not any(_has_value(e, p) for p in pts):
        return None
    text = call("%s of %s" % (how.__name__, brief(e)), lambda: how(e))
    if not isinstance(text, str):
        raise Violation("not-text", "%s of %s returned %r" % (how.__name__, brief(e), text))
    again = call("printing twice", lambda: how(e))
    if again != text or struct(e) != s0:
        raise Violation("unstable", "printing %r twice gave %r" % (text, again))
    try:
        t = read(text, names)
    except reading.Bad as ex:
        raise Violation("unreadable-text", "%s printed as %r: %s" % (brief(e), text, ex))
    if gen.variables(t) != names:
        raise Violation("symbols", "%s printed as %r: symbols %s" % (brief(e), text, sorted(gen.variables(t) ^ names)))
    n = judge(evaluator(e), denoter(t), pts, obs, None, gen.has_float(t), lambda: "%s is printed as %r" % (brief(e), text), "value")
    obs.add("texts_read")
    obs.max("max_length", len(text))
    for k in gen.ops(t):
        obs.add("read_" + k)
    if n < 1:
        return None
    return text


def _has_value(e, env):
    try:
        num.val(e, num.envf(env), num.FLOAT)
        return True
    except (num.Undef, ArithmeticError, ValueError):
        return False


def brief(e):
    """structure without simpy's own printer"""
    n = type(e).__name__
    if n == "Symbol":
        return e.name
    if n in ("Rat", "Float"):
        return str(e.value)
    ks = kids_of(e)
    return "%s(%s)" % (n, ", ".join(brief(k) for k in ks)) if ks else n
