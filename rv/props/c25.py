"""C25 what is neither a number nor an expression is refused"""
import random
from decimal import Decimal

from .. import gen
from ..common import *
from ..core import Violation
import simpy

ID = "C25"
RULE = (
    "a case takes an operation (operators on either side, constructors, functions, substitution, evaluation, differentiation, integration "
    "with bounds), random expressions for its proper operands, and puts something foreign (text, bytes, a complex number, a set, a "
    "function, a Decimal, a range, a list, a tuple, a dict, None, a class, an object, or a malformed pair of bounds) in one place; an exception must come out, the operands must be as "
    "they were, and the same operation with a number in that place must work; distinct by operation, kind of object and operand"
)
COUNT = {"quick": 16000, "thorough": 120000}
MIN = {"quick": 4000, "thorough": 12000}


class Thing:
    def __repr__(self):
        return "<a thing>"


FOREIGN = {
    "text": lambda: "a", "symbol name": lambda: "x", "digits": lambda: "2", "bytes": lambda: b"x", "thing": Thing, "complex": lambda: 1 + 2j,
    "real complex": lambda: complex(2), "set": lambda: {1}, "function": lambda: len, "lambda": lambda: (lambda t: t), "Decimal": lambda: Decimal("1.5"),
    "range": lambda: range(3), "iterator": lambda: iter([1]), "module": lambda: random, "frozenset": lambda: frozenset([2]), "exception": lambda: ValueError("x"),
    "list": lambda: [2], "tuple": lambda: (2,), "empty tuple": lambda: (), "dict": lambda: {"x": 2}, "None": lambda: None, "type": lambda: int,
    "expression class": lambda: X.sin, "ellipsis": lambda: ...,
}
FN = ["sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "sqrt", "Abs"]


def ops(e, f, x):
    """operation -> function of the foreign value"""
    d = {
        "e + a": lambda a: e + a, "a + e": lambda a: a + e, "e - a": lambda a: e - a, "a - e": lambda a: a - e, "e * a": lambda a: e * a,
        "a * e": lambda a: a * e, "e / a": lambda a: e / a, "a / e": lambda a: a / e, "e ** a": lambda a: e**a, "a ** e": lambda a: a**e,
        "Sum": lambda a: X.Sum([e, a]), "Sum3": lambda a: X.Sum([e, f, a]), "Prod": lambda a: X.Prod([a, e]), "Prod3": lambda a: X.Prod([e, a, f]),
        "Power(e, a)": lambda a: X.Power(e, a), "Power(a, e)": lambda a: X.Power(a, e), "log(e, a)": lambda a: X.log(e, a),
        "subs": lambda a: e.subs({x.name: a}), "subs2": lambda a: f.subs({x.name: 2, "y": a}), "evalf": lambda a: e.evalf({x.name: a}),
        "integrate a": lambda a: simpy.integrate(a, x), "integrate from a": lambda a: simpy.integrate(x + 1, (x, a, 1)),
        "integrate to a": lambda a: simpy.integrate(x + 1, (x, 0, a)), "a + e + f": lambda a: a + e + f, "e * (f + a)": lambda a: e * (f + a),
        "sin(e + a)": lambda a: X.sin(e + a), "e + f * a": lambda a: e + f * a,
    }
    for n in FN:
        d[n] = lambda a, n=n: getattr(X, n)(a)
    return d


SHAPES = {"no bounds": lambda x: (x,), "four": lambda x: (x, 0, 1, 2), "empty": lambda x: (), "a number": lambda x: 3, "a list": lambda x: [x, 0, 1],
          "text": lambda x: "x", "text with bounds": lambda x: ("x", 0, 1)}
OPS = sorted(ops(X.Symbol("x"), X.Symbol("y"), X.Symbol("x")))


def make(rng, i, tier):
    prof = rng.choice(["alg", "full", "rad", "trig"])
    c = {"op": rng.choice(OPS), "what": rng.choice(sorted(FOREIGN)), "e": gen.recipe(rng, prof, rng.choice([0, 1, 1, 2])),
         "f": gen.recipe(rng, prof, rng.choice([0, 1])), "v": rng.choice(["x", "x", "y", "z"]), "s": rng.getrandbits(40)}
    if i % 12 == 11:
        c["op"], c["what"] = "bounds", rng.choice(sorted(SHAPES))
    return c


def run(case, obs):
    re, rf = gen.tup(case["e"]), gen.tup(case["f"])
    x = X.Symbol(case["v"])
    names = sorted(gen.variables(re) | gen.variables(rf) | {case["v"]})
    pts = envs(case["s"], names, 3)
    if not (defined_somewhere(re, pts) and defined_somewhere(rf, pts)):
        return None
    e, f = build(re, "op", pts), build(rf, "op", pts)
    if e is None or f is None or tree_size(e) > 60:
        return None
    if case["op"] in ("subs", "evalf") and x.name not in names_of(e) or case["op"] == "subs2" and "y" not in names_of(f):
        return None  # the value is not used
    before = struct(e), struct(f)
    if case["op"] == "bounds":
        a = SHAPES[case["what"]](x)
        what = "integrate(%s, %r)" % (srepr(e), a)
        fn = lambda: simpy.integrate(e + x, a)
    else:
        a = FOREIGN[case["what"]]()
        what = "%s with e = %s, f = %s, a = %r (%s)" % (case["op"], srepr(e), srepr(f), a, type(a).__name__)
        op = ops(e, f, x)[case["op"]]
        fn = lambda: op(a)
    try:
        g = fn()
    except RecursionError:
        raise Violation("recursion", what + " recursed without end")
    except Exception as ex:
        obs.add("refused_by_" + type(ex).__name__)
    else:
        raise Violation("accepted", "%s gives %s" % (what, srepr(g)))
    if (struct(e), struct(f)) != before:
        raise Violation("operand-changed", what + " changed an operand")
    if case["op"] not in ("bounds", "asin", "acos", "log", "Abs", "sqrt", "evalf") and not case["op"].startswith("integrate") and gen.variables(re):
        # the same operation with a number is fine (and so the refusal was about the foreign value)
        g = call(case["op"] + " with e = %s, f = %s and 3" % (srepr(e), srepr(f)), lambda: op(X.Rat(3)), allow=(ZeroDivisionError, OverflowError, NotImplementedError)) \
            if light(e) and light(f) else None
        if g is not None and not isinstance(g, Expr):
            raise Violation("not-an-expression", "%s with 3 gives %r" % (case["op"], g))
    obs.add("op_" + case["op"])
    return (case["op"], case["what"], gen.show(re))


def light(e):
    return tree_size(e) < 25 and blowup(e) < 50


def shrink(case, fails):
    case = dict(case, e=gen.shrink(gen.tup(case["e"]), lambda s: fails(dict(case, e=s))))
    return dict(case, f=gen.shrink(gen.tup(case["f"]), lambda s: fails(dict(case, f=s))))


def describe(case):
    return "%s with %s, e = %s" % (case["op"], case["what"], gen.show(gen.tup(case["e"])))
