"""C17 evalf() gives the number"""
import math
import random
from fractions import Fraction

from .. import families, gen, integrands, num
from ..common import *
from ..core import Violation
from ..load import mp

ID = "C17"
RULE = (
    "a case is an expression (random, an integrand, its derivative or a definite combination of constants) evaluated by evalf() with every symbol given "
    "(must be a single floating point number equal to the value up to 1000 times a running bound of the rounding errors), with some of them given (the rest must stay, "
    "and the value at further points agree), or none; it counts when the value was well-conditioned and compared; distinct by expression and keys"
)
COUNT = {"quick": 15000, "thorough": 130000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 4000, "thorough": 12000}
ASSUMPTIONS = ["values whose own double precision evaluation is off by more than 1e-9 (ill-conditioned) are not compared",
               "a power of a power or of a product with a non-integer exponent is rewritten as if its base were non-negative (finding "
               "D1); partial evaluations at points where that is false are not compared"]
CONST = [("ln", gen.N(2)), ("ln", gen.N(7, 3)), ("log", gen.N(8), gen.N(3)), ("log", gen.N(5), gen.N(10)), ("sqrt", gen.N(2)),
         ("^", gen.N(3), gen.N(1, 3)), ("pi",), ("e",), ("^", ("e",), gen.N(1, 2)), ("sin", gen.N(1)), ("cos", gen.N(2)), ("tan", gen.N(5, 7)),
         ("asin", gen.N(1, 3)), ("acos", gen.N(-1, 5)), ("atan", gen.N(7)), ("^", ("pi",), gen.N(2)), ("^", gen.N(2), ("pi",)), ("^", gen.N(2), ("sqrt", gen.N(3))),
         ("abs", ("-", ("pi",), gen.N(4))), ("sec", gen.N(1)), ("csc", gen.N(2)), ("cot", gen.N(3)), ("sin", ("/", ("pi",), gen.N(5))),
         ("log", ("pi",), ("e",)), ("log", gen.N(7), ("pi",)), ("^", gen.N(1, 2), ("e",)), ("n", 10**15 + 37, 10**7 + 19), ("n", -1, 10**9)]


def constant(rng, d=2):
    if d == 0 or rng.random() < 0.3:
        return rng.choice(CONST) if rng.random() < 0.8 else gen.rnum(rng)
    k = rng.choice(["+", "*", "-", "/", "^", "f"])
    if k == "f":
        return (rng.choice(["sin", "cos", "tan", "atan", "abs", "neg", "sec", "csc", "cot"]), constant(rng, d - 1))
    if k == "^":
        return ("^", constant(rng, d - 1), gen.N(rng.choice([2, 3, -1, -2])))
    return (k, constant(rng, d - 1), constant(rng, d - 1))


def near(rng, q):
    """a number that is almost q"""
    k = 10 ** rng.randint(5, 13)
    return Fraction(q) + Fraction(rng.choice([-1, 1]) * rng.randint(1, 9), k)


def almost(rng):
    """a value next to one that is special"""
    F = lambda q: gen.N(q.numerator, q.denominator)
    c = rng.randrange(6)
    if c == 0:
        b, m = rng.choice([2, 3, 5, 10]), rng.randint(-2, 4)
        return ("log", F(near(rng, Fraction(b) ** m)), gen.N(b))
    if c == 1:
        return ("ln", ("*", ("^", ("e",), gen.N(rng.randint(-3, 4))), F(near(rng, 1))))
    if c == 2:
        return (rng.choice(["sin", "cos", "tan", "sec", "csc", "cot"]), ("*", ("pi",), F(near(rng, Fraction(rng.randint(-12, 24), 12)))))
    if c == 3:
        return (rng.choice(["asin", "acos", "atan", "abs", "ln", "neg"]), F(near(rng, rng.choice([0, 1, -1, Fraction(1, 2), Fraction(-1, 2)]))))
    if c == 4:
        return ("^", F(near(rng, rng.choice([1, 4, 8, 9, Fraction(1, 4), -1]))), F(near(rng, rng.choice([1, 2, -1, Fraction(1, 2), Fraction(1, 3)]))))
    return (rng.choice(["+", "-", "*", "/"]), F(near(rng, rng.randint(-3, 3))), rng.choice(CONST))


def make(rng, i, tier):
    c = i % 5
    if c == 0:
        r = almost(rng) if rng.random() < 0.2 else constant(rng)
    elif c == 1:
        r = integrands.make(rng, rng.choice(integrands.NAMES))
    else:
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "full", "trig"]), rng.choice([1, 2, 3, 3]))
    names = sorted(gen.variables(r))
    keys = names if rng.random() < 0.7 else [n for n in names if rng.random() < 0.5]
    if not names and rng.random() < 0.3:
        keys = ["x"]
    return {"r": r, "keys": keys, "how": [rng.choice(["frac", "frac", "float", "rat", "int", "expr"]) for _ in keys],
            "first": rng.choice(["", "", "", "", "diff"]), "s": rng.getrandbits(40), "none": not keys and rng.random() < 0.5}


def run(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["s"], names or ["x"], 5)
    rng = random.Random(case["s"] + 1)
    if not gen.tame(r):
        return None
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 150:
        return None
    if case["first"] and blowup(e) < 60:
        e = guarded("diff", lambda: e.diff(X.Symbol("x")), r, pts)
        if e is None:
            return None
    done = 0
    s0 = struct(e)
    for env in pts:
        d = {}
        for k, h in zip(case["keys"], case["how"]):
            env.setdefault(k, Fraction(1, 3))
            if h == "int":
                env[k] = Fraction(rng.randint(-4, 6))
            elif h == "expr":
                env[k] = Fraction(rng.randint(-9, 12), rng.choice([2, 3, 4, 5]))
            elif rng.random() < 0.1:
                env[k] = near(rng, rng.choice([0, 1, -1, 2, 4, 8, 9, 10, Fraction(1, 2), Fraction(1, 4)]))
            q = env[k]
            d[k] = {"frac": q, "float": q.numerator / q.denominator, "rat": X.Rat(q), "int": int(q), "expr": X.Rat(q)}[h]
        # what it should be, and whether double precision can be expected to get there
        try:
            with mp.workdps(40):
                a = num.val(e, num.envm(env), num.MP)
            f = num.val(e, num.envf(env), num.FLOAT)
            if abs(f - a) > 1e-9 * (1 + abs(a)) or abs(a) > 1e120:
                obs.add("ill_conditioned")
                continue
            g = num.val(e, {k: v * (1 + 3e-15) for k, v in num.envf(env).items()}, num.FLOAT)
            if abs(g - a) > 1e-8 * (1 + abs(a)):
                obs.add("ill_conditioned")
                continue
        except (num.Undef, ArithmeticError, ValueError):
            obs.add("undefined_points")
            continue
        shown = "%s .evalf(%s)" % (srepr(e), ", ".join("%s: %r" % kv for kv in d.items()))
        d0 = dict(d)
        with assumptions() as A:
            v = call(shown, (lambda: e.evalf()) if case["none"] else (lambda: e.evalf(d)))
        if struct(e) != s0 or d != d0:
            raise Violation("mutated", shown + " changed its arguments")
        if not isinstance(v, Expr):
            raise Violation("not-an-expression", "%s returned %r" % (shown, v))
        left = names_of(e) - set(d)
        if not left:
            if not isinstance(v, X.Num):
                raise Violation("not-a-number", "%s = %s although every symbol is given" % (shown, srepr(v)))
            if type(v).__name__ not in ("Float", "Rat"):
                raise Violation("not-a-number", "%s = %s" % (shown, srepr(v)))
            w = float(v.value)
            if not abs(w - a) <= 1e-7 * (1 + abs(a)):
                raise Violation("value", "%s = %r but the value is %s" % (shown, w, mp.nstr(a, 15)))
            obs.add("numbers_compared")
            try:
                err = num.rounding(e, env)
            except (num.Undef, ArithmeticError, ValueError):
                err = None
            if err is not None:
                if not abs(w - a) <= 1000 * err + 1e-290:
                    raise Violation("digits", "%s = %r but the value is %s, and rounding explains a difference of %s only"
                                    % (shown, w, mp.nstr(a, 20), mp.nstr(err, 3)))
                obs.add("numbers_compared_to_the_last_digits")
        else:
            if names_of(v) - left:
                raise Violation("symbols", "%s = %s still contains %s" % (shown, srepr(v), sorted(names_of(v) - left)))
            try:
                w = num.val(v, num.envf(env), num.FLOAT)
            except (num.Undef, ArithmeticError, ValueError):
                obs.add("partial_undefined")
                continue
            if not abs(w - a) <= 1e-6 * (1 + abs(a)):
                if A.excused(env, True):
                    obs.add("points_outside_claim")
                    continue
                raise Violation("value", "%s = %s, which is %r at %s instead of %s" % (shown, srepr(v), w, {k: str(q) for k, q in env.items()}, mp.nstr(a, 15)))
            obs.add("partial_compared")
        done += 1
        if not names:
            break
    if not done:
        return None
    for k in gen.ops(r):
        obs.add("op_" + k)
    return (gen.show(r), tuple(case["keys"]), tuple(case["how"]), case["first"])


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "%s with %s" % (gen.show(gen.tup(case["r"])), list(zip(case["keys"], case["how"])))
