"""C24 infinite and undefined values are never mistaken for finite ones"""
import math
import random
from fractions import Fraction

from .. import ext, gen, num, quad
from ..common import *
from ..core import Violation
import simpy

ID = "C24"
RULE = (
    "a case is arithmetic (sums, products, quotients, powers, absolute values, comparisons) on numbers some of which are infinite or zero, "
    "compared with extended real arithmetic; or a function of x at an infinity or at a pole by subs(), compared with the extended value of "
    "its tree; or an improper integral whose answer, when it is a number, is compared with the numerically found area (and with whether "
    "that is finite); it counts when a value was compared; distinct by input"
)
COUNT = {"quick": 18000, "thorough": 200000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 4000, "thorough": 12000}
ASSUMPTIONS = [
    "a zero that came from an infinity (1/inf) has no sign, so dividing by it is not judged; nor are nan^0, 1^nan, 1^inf, inf^0 and fractional "
    "powers of negative infinities",
    "an improper integral for which nan is answered, or an expression that still contains an infinity inside a function other than ln and atan, "
    "is not judged",
]


# ---------------------------------------------------------------- arithmetic


def rconst(rng, d):
    if d == 0 or rng.random() < 0.2:
        return rng.choice([("inf",), ("inf",), ("ninf",), ("n", 0, 1), ("n", rng.randint(-3, 4), 1), gen.N(rng.randint(-7, 7), rng.choice([1, 2, 3])),
                           ("n", 1, 1), ("n", -1, 1), gen.N(10**20 + rng.randint(0, 9)), ("f", rng.choice([1.5, -0.25, 2.0, 1e10]))])
    o = rng.choice(["+", "+", "-", "*", "*", "/", "^", "neg", "abs", "S", "P"])
    if o in "SP":
        return (o,) + tuple(rconst(rng, d - 1) for _ in range(rng.randint(2, 4)))
    if o in ("neg", "abs"):
        return (o, rconst(rng, d - 1))
    if o == "^" and rng.random() < 0.6:
        return (o, rconst(rng, d - 1), gen.N(rng.choice([-3, -2, -1, 1, 2, 3, 4])))
    return (o, rconst(rng, d - 1), rconst(rng, d - 1))


def mconst(r):
    o = r[0]
    if o == "inf":
        return ext.INF
    if o == "ninf":
        return -ext.INF
    if o == "n":
        return Fraction(r[1], r[2])
    if o == "f":
        return r[1]
    k = [mconst(t) for t in r[1:]]
    if o in "+S" or o == "-":
        if o == "-":
            k[1] = ext.neg(k[1])
        v = k[0]
        for t in k[1:]:
            v = ext.add(v, t)
        return v
    if o in "*P":
        v = k[0]
        for t in k[1:]:
            v = ext.mul(v, t)
        return v
    if o == "/":
        if k[1] == 0 and not ext.infinite(k[0]) and not ext.nan(k[0]) and ext.sign(k[0]) == 0:
            return ext.NAN
        return ext.mul(k[0], ext.inverse(k[1]))
    if o == "neg":
        return ext.neg(k[0])
    if o == "abs":
        return ext.absolute(k[0])
    return ext.power(k[0], k[1])


def bconst(r):
    o = r[0]
    if o == "inf":
        return X.inf
    if o == "ninf":
        return -X.inf
    if o == "n":
        return X.Rat(Fraction(r[1], r[2]))
    if o == "f":
        return X.Float(r[1])
    k = [bconst(t) for t in r[1:]]
    return {"+": lambda: k[0] + k[1], "-": lambda: k[0] - k[1], "neg": lambda: -k[0], "abs": lambda: X.Abs(k[0]), "*": lambda: k[0] * k[1],
            "/": lambda: k[0] / k[1], "^": lambda: k[0] ** k[1], "S": lambda: X.Sum(list(k)), "P": lambda: X.Prod(list(k))}[o]()


def floats(r):
    return r[0] == "f" or any(isinstance(t, tuple) and floats(t) for t in r[1:])


def cshow(r):
    o = r[0]
    if o in ("inf", "ninf"):
        return "inf" if o == "inf" else "-inf"
    if o == "n":
        return str(Fraction(r[1], r[2]))
    if o == "f":
        return repr(r[1])
    return "%s(%s)" % ({"S": "Sum", "P": "Prod"}.get(o, o), ", ".join(cshow(t) for t in r[1:]))


# ---------------------------------------------------------------- functions of x


def poly(rng, deg):
    return ("+",) + tuple(("*", gen.N(rng.choice([-3, -2, -1, 1, 2, 5]), rng.choice([1, 1, 2, 3])), ("^", gen.V("x"), gen.N(k)))
                          for k in range(deg, -1, -1) if k == deg or rng.random() < 0.7)


def rfunc(rng):
    x = gen.V("x")
    root = gen.N(rng.randint(-3, 3), rng.choice([1, 1, 2]))
    lin = ("-", x, root)
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts.append(rng.choice([
            lambda: poly(rng, rng.randint(1, 3)),
            lambda: ("/", gen.rnum(rng), ("^", lin, gen.N(rng.choice([1, 1, 2, 3])))),
            lambda: ("/", poly(rng, 1), poly(rng, rng.randint(1, 2))),
            lambda: ("^", ("e",), ("*", gen.N(rng.choice([-2, -1, 1, 3])), x)),
            lambda: ("^", ("e",), ("/", gen.N(rng.choice([-1, 1])), lin)),
            lambda: ("^", gen.N(rng.choice([2, 3, 1]), rng.choice([1, 2])), x),
            lambda: ("^", rng.choice([("sin", gen.N(rng.randint(1, 3))), ("cos", gen.N(1)), ("sqrt", gen.N(rng.choice([2, 3]), rng.choice([1, 5]))), ("ln", gen.N(rng.choice([2, 5]))),
                                      ("atan", gen.N(rng.choice([1, 3]))), ("/", ("e",), ("pi",)), ("/", gen.N(1), ("pi",)), ("pi",), ("+", gen.N(1, 3), ("sin", gen.N(1))),
                                      ("-", ("pi",), gen.N(3)), ("/", ("sqrt", gen.N(3)), gen.N(2))]), ("*", gen.N(rng.choice([1, 1, -1, 2])), x)),
            lambda: ("^", x, gen.N(rng.choice([-1, 1, 3, 5, -3]), rng.choice([2, 3]))),
            lambda: ("ln", x), lambda: ("atan", x), lambda: ("abs", lin),
        ])())
    r = parts[0]
    for p in parts[1:]:
        r = (rng.choice(["+", "*", "-", "/"]), r, p)
    return r, root


# ---------------------------------------------------------------- improper integrals


def rimproper(rng):
    """(integrand, lower, upper) with an infinite bound, as recipes"""
    x = gen.V("x")
    c = rng.choice(["power", "power", "exp", "exp", "polyexp", "arctan", "rational", "log", "both", "grow", "grow"])
    k = gen.N(rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 1, 2, 3]))
    a = gen.N(rng.randint(-2, 3))
    C = gen.N(rng.choice([1, 1, 2, -3, 7]), rng.choice([1, 1, 2]))
    if c == "power":
        n = gen.N(rng.choice([2, 3, 4, 3, 1, 5, 1, 7]), rng.choice([1, 1, 2, 3]))
        r = ("/", C, ("^", ("+", x, gen.N(rng.randint(3, 6))), n))
    elif c == "exp":
        r = ("*", C, ("^", ("e",), ("neg", ("*", k, x))))
    elif c == "polyexp":
        r = ("*", ("^", x, gen.N(rng.choice([1, 2]))), ("^", ("e",), ("neg", ("*", k, ("^", x, gen.N(rng.choice([1, 2])))))))
    elif c == "arctan":
        r = ("/", C, ("+", ("^", x, gen.N(2)), gen.N(rng.choice([1, 1, 4, 9, 2]))))
    elif c == "rational":
        r = ("/", C, ("*", ("+", x, gen.N(rng.randint(3, 4))), ("+", x, gen.N(rng.randint(5, 6)))))
    elif c == "log":
        r = ("/", C, ("*", ("+", x, gen.N(5)), ("^", ("ln", ("+", x, gen.N(5))), gen.N(2))))
    elif c == "both":
        r = rng.choice([("/", C, ("+", gen.N(1), ("^", x, gen.N(2)))), ("/", ("^", ("e",), x), ("+", gen.N(1), ("^", ("e",), ("*", gen.N(2), x))))])
    else:
        r = rng.choice([("*", C, ("^", x, gen.N(rng.choice([0, 1, 2, 3])))), ("+", C, ("/", gen.N(1), ("+", x, gen.N(4)))), ("*", C, ("^", ("e",), ("*", k, x))),
                        ("*", C, ("^", ("+", x, gen.N(3)), gen.N(rng.choice([-1, 1, 3]), rng.choice([2, 3])))), ("*", C, ("ln", ("+", x, gen.N(3)))), poly(rng, rng.randint(1, 3))])
    if rng.random() < 0.25:
        r = ("+", r, ("*", gen.N(rng.choice([1, -2])), ("^", ("e",), ("neg", x))))
    lo, hi = a, ("inf",)
    if c == "both" or c == "arctan" and rng.random() < 0.4:
        lo = ("ninf",) if rng.random() < 0.6 else a
    elif rng.random() < 0.25:
        # mirrored: from minus infinity
        r = gen.subst(r, {"x": ("neg", x)}) if hasattr(gen, "subst") else mirror(r)
        lo, hi = ("ninf",), gen.N(-a[1])
    if rng.random() < (0.4 if c == "grow" else 0.15):
        lo, hi = hi, lo
    return r, lo, hi


def mirror(r):
    if r == ("v", "x"):
        return ("neg", r)
    ks = gen.kids(r)
    return gen.with_kids(r, [mirror(k) for k in ks]) if ks else r


def tail_area(f, a, b):
    """area over an interval with an infinite end (which may be infinite), or None"""
    if a > b:
        v = tail_area(f, b, a)
        return None if v is None else -v
    if a == -math.inf and b == math.inf:
        p, q = tail_area(f, a, 0.25), tail_area(f, 0.25, b)
        return None if p is None or q is None else p + q
    if a == -math.inf:
        return tail_area(lambda t: f(-t), -b, math.inf)
    # x = a + t/(1-t); believed when cutting off at 1e5 and at 1e7 changes nothing
    cuts = [a + 2.0**k for k in range(-1, 41)]
    total, last, small = quad.integral(f, a, cuts[0]), cuts[0], 0
    if total is None:
        return None
    history = []
    for c in cuts[1:]:
        try:
            v = quad.integral(f, last, c)
        except (num.Undef, ArithmeticError, ValueError):
            return None
        if v is None:
            return None
        total += v
        last = c
        history.append(v)
        if abs(total) > 1e11:
            return math.copysign(math.inf, v) if total * v > 0 else None
        small = small + 1 if abs(v) < 1e-12 * (1 + abs(total)) else 0
        if small >= 4:
            return total
    # geometric tail?
    r = [history[-i] / history[-i - 1] for i in range(1, 6) if history[-i - 1]]
    if len(r) == 5 and max(r) - min(r) < 1e-4:
        if r[0] < 0.9:
            return total + history[-1] * r[0] / (1 - r[0])
        if r[0] > 0.99:
            return math.copysign(math.inf, history[-1])
    return None


# ---------------------------------------------------------------- cases


def make(rng, i, tier):
    k = i % 10
    if k < 5:
        return {"k": "const", "r": rconst(rng, rng.choice([1, 1, 2, 2, 3]))}
    if k == 5:
        return {"k": "compare", "r": rconst(rng, rng.choice([0, 0, 1])), "q": rconst(rng, rng.choice([0, 0, 1]))}
    if k < 9:
        r, root = rfunc(rng)
        at = rng.choice([["inf"], ["ninf"], list(root), list(root)])
        return {"k": "subs", "r": r, "at": at}
    if i % 60 == 9:
        r, lo, hi = rimproper(rng)
        return {"k": "improper", "r": r, "lo": lo, "hi": hi}
    return {"k": "const", "r": rconst(rng, 3)}


def run(case, obs):
    obs.add("kind_" + case["k"])
    return {"const": const, "compare": compare, "subs": subs, "improper": improper}[case["k"]](case, obs)


def read(g):
    return ext.tree(g, {})


def const(case, obs):
    r = gen.tup(case["r"])
    try:
        want = mconst(r)
    except (ext.Unclear, OverflowError, ZeroDivisionError):
        return None
    what = cshow(r)
    try:
        g = call(what, lambda: bconst(r), allow=(ZeroDivisionError, OverflowError))
    except (ZeroDivisionError, OverflowError):
        # Python's floats refuse some powers of zero and large values
        if not floats(r):
            raise Violation("raised", what + " raised an exception")
        obs.add("refused_by_python_floats")
        return None
    if not isinstance(g, Expr):
        raise Violation("not-an-expression", "%s is %r" % (what, g))
    try:
        got = read(g)
    except ext.Unclear:
        raise Violation("unclear", "%s = %s" % (what, srepr(g)))
    if not ext.same(got, want, "inf" not in what):
        raise Violation("extended-arithmetic", "%s = %s, but it should be %s" % (what, srepr(g), ext.show(want)))
    obs.add("infinite" if ext.infinite(want) else "undefined" if ext.nan(want) else "finite")
    ok = "inf" in what
    if ok and len(r) > 1:
        obs.add("with_infinities")
    return what if ok else None


def compare(case, obs):
    a, b = gen.tup(case["r"]), gen.tup(case["q"])
    try:
        p, q = mconst(a), mconst(b)
    except (ext.Unclear, OverflowError, ZeroDivisionError):
        return None
    if ext.nan(p) or ext.nan(q) or p is ext.TINY or q is ext.TINY:
        return None
    what = "%s, %s" % (cshow(a), cshow(b))
    try:
        u, v = call(what, lambda: (bconst(a), bconst(b)), allow=(ZeroDivisionError, OverflowError) if floats(a) or floats(b) else ())
    except (ZeroDivisionError, OverflowError):
        return None
    if not all(isinstance(t, X.Num) for t in (u, v)):
        return None
    for op, f in (("<", lambda s, t: s < t), ("<=", lambda s, t: s <= t), (">", lambda s, t: s > t), (">=", lambda s, t: s >= t),
                  ("==", lambda s, t: s == t), ("!=", lambda s, t: s != t)):
        g = call("%s %s %s" % (srepr(u), op, srepr(v)), lambda: f(u, v))
        w = f(p, q)
        if isinstance(p, float) != isinstance(q, float) and not ext.infinite(p) and not ext.infinite(q):
            continue
        if g is not w:
            raise Violation("comparison", "%s %s %s is %r" % (srepr(u), op, srepr(v), g))
    obs.add("compared")
    return what if "inf" in what else None


def subs(case, obs):
    r = gen.tup(case["r"])
    at = case["at"]
    p = ext.INF if at[0] == "inf" else -ext.INF if at[0] == "ninf" else Fraction(at[1], at[2])
    t = X.inf if at[0] == "inf" else -X.inf if at[0] == "ninf" else X.Rat(p)
    pts = [{"x": Fraction(7, 5)}]
    if not gen.tame(r):
        return None
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 120 or not names_of(e):
        return None
    what = "%s at x = %s" % (srepr(e), srepr(t))
    try:
        want = ext.tree(e, {"x": p})
    except (ext.Unclear, OverflowError, ZeroDivisionError):
        obs.add("not_settled")
        return None
    g = call(what, lambda: e.subs({"x": t}))
    if not isinstance(g, Expr) or names_of(g):
        raise Violation("not-a-constant", "%s is %r" % (what, g))
    try:
        got = read(g)
    except (ext.Unclear, OverflowError, ZeroDivisionError):
        obs.add("left_unevaluated")
        return None
    if not ext.same(got, want, not ext.infinite(p)):
        if ext.nan(want) and irrational(e, g):
            obs.add("zero_times_unevaluated")
            return None
        raise Violation("value-at-infinity", "%s = %s, but it should be %s" % (what, srepr(g), ext.show(want)))
    k = "infinite" if ext.infinite(want) else "undefined" if ext.nan(want) else "finite"
    obs.add("at_" + ("infinity" if ext.infinite(p) else "a_number") + "_" + k)
    return (gen.show(r), str(at)) if k != "finite" or ext.infinite(p) else None


def irrational(e, g):
    """zero times something kept unevaluated, like 0*(inf*e), is 0 for simpy"""
    return any(type(t).__name__ in ("E", "Pi", "log", "atan") or type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat"
               and t.exponent.value.denominator != 1 or type(t).__name__ == "Power" and type(t.exponent).__name__ != "Rat" for t in nodes(e))


def bnum(r):
    return math.inf if r[0] == "inf" else -math.inf if r[0] == "ninf" else r[1] / r[2]


def improper(case, obs):
    r, lo, hi = gen.tup(case["r"]), gen.tup(case["lo"]), gen.tup(case["hi"])
    a, b = bnum(lo), bnum(hi)
    e = build(r, "op", [{"x": Fraction(max(min(a, b), -50.0) if min(a, b) > -math.inf else min(max(a, b), 50.0))}])
    if e is None or "x" not in names_of(e):
        return None

    def f(t):
        return num.val(e, {"x": t}, num.FLOAT)

    def g(t):
        try:
            return f(t)
        except num.Undef as ex:
            # e^-1000 is nothing, and so is e^-1000 divided by something
            if "overflow" in str(ex) or "huge" in str(ex):
                return num_limit(r, t)
            raise

    try:
        want = tail_area(g, a, b)
    except (num.Undef, ArithmeticError, ValueError):
        want = None
    what = "integrate(%s, (x, %s, %s))" % (srepr(e), cshow(lo), cshow(hi))
    x = X.Symbol("x")
    v = call(what, lambda: simpy.integrate(e, (x, bconst(lo), bconst(hi))))
    if v is None:
        obs.add("improper_unsolved")
        return None
    if not isinstance(v, Expr) or names_of(v):
        raise Violation("leaked-variable", "%s = %r" % (what, v))
    if want is None:
        obs.add("improper_undecided")
        return None
    try:
        got = read(v)
    except (ext.Unclear, OverflowError, ZeroDivisionError):
        try:
            got = num.val(v, {}, num.FLOAT)
        except (num.Undef, ArithmeticError, ValueError):
            obs.add("improper_unevaluated")
            return None
    if ext.nan(got):
        obs.add("improper_nan")
        return None
    if want != want:
        # one half is infinite and so is the other, with the opposite sign
        if not ext.infinite(got):
            raise Violation("improper-integral", "%s = %s, but the area is not finite" % (what, srepr(v)))
        obs.add("improper_undecided")
        return None
    if ext.infinite(want):
        if got != want:
            raise Violation("improper-integral", "%s = %s, but the area is %s" % (what, srepr(v), want))
        obs.add("improper_divergent_agreed")
        return what
    got = 0.0 if got is ext.TINY else float(got)
    if not abs(got - want) <= 1e-6 * (1 + abs(want)):
        raise Violation("improper-integral", "%s = %s, but the area is %.10g" % (what, srepr(v), want))
    obs.add("improper_agreed")
    return what


def num_limit(r, t):
    """the value of a recipe at a large argument when double precision overflows on the way"""
    from ..load import mp
    with mp.workdps(30):
        return float(num.den(r, {"x": mp.mpf(t)}, Wide()))


class Wide(num.MpField):
    @staticmethod
    def check(v):
        return v

    eps = mp.mpf(10) ** -100000


def shrink(case, fails):
    if case["k"] != "const":
        return case
    r = gen.tup(case["r"])
    done = False
    while not done:
        done = True
        for j, k in enumerate(r[1:]):
            if isinstance(k, tuple) and fails(dict(case, r=k)):
                r, done = k, False
                break
    return dict(case, r=r)


def describe(case):
    if case["k"] == "const":
        return cshow(gen.tup(case["r"]))
    if case["k"] == "compare":
        return "%s against %s" % (cshow(gen.tup(case["r"])), cshow(gen.tup(case["q"])))
    return "%s of %s" % (case["k"], gen.show(gen.tup(case["r"])))
