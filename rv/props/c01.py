"""C01 building an expression keeps its value"""
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation

ID = "C01"
RULE = (
    "a case is a random recipe (numbers, symbols, pi, e, + - * / ** neg sqrt abs log sin..cot asin..atan, nested to "
    "depth 4, and recipes shaped around every rewriting rule of the constructors) built with Python operators, with the constructors Sum/Prod/Power, or with Rat literals; it counts when "
    "at least two sample points gave a defined value that the built tree also has; distinct by recipe and style"
)
COUNT = {"quick": 15000, "thorough": 90000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 2000, "thorough": 5000}
STYLES = ("op", "ctor", "rat")


# ---------------------------------------------------------------- recipes around each rewriting rule of the constructors

V, N = gen.V, gen.N


def _u(rng, d=1):
    return gen.recipe(rng, rng.choice(["alg", "rad", "full"]), rng.choice([0, 0, d]))


def explog(rng):
    b = rng.choice([("e",), ("e",), ("e",), N(2), N(3), N(10), V("y"), ("pi",)])
    u = _u(rng)
    lg = ("ln", u) if b == ("e",) else ("log", u, b)
    fs = [lg] + [rng.choice([V("x"), V("y"), V("z"), N(2), N(-1), N(1, 2), N(-3, 2), ("sin", V("x")), ("ln", V("z")),
                            ("^", V("x"), N(2)), ("/", N(1), V("y")), _u(rng)]) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
    rng.shuffle(fs)
    x = ("*",) + tuple(fs) if len(fs) > 1 else fs[0]
    if rng.random() < 0.2:
        x = ("+", x, _u(rng))
    if rng.random() < 0.1:
        x = ("neg", x)
    return ("^", b, x)


def powpow(rng):
    m = rng.choice([2, 2, -2, 4, -4, 6, -6, 3, -3, 8, 5])
    p = rng.choice([N(1, m), N(1, m), N(-1, m), N(1, 2), N(2, m), N(3, m), N(1, 2 * m), N(2), N(-1), N(3)])
    t = ("^", ("^", _u(rng), N(m)), p)
    return rng.choice([t, ("*", t, _u(rng)), ("+", t, _u(rng))])


def logpow(rng):
    b = rng.choice([("e",), N(2), N(10), V("y"), N(3)])
    u = _u(rng)
    arg = rng.choice([("^", b, u), ("^", b, u), b, N(1), ("*", b, u), ("^", u, N(2)), ("/", N(1), b), ("abs", u), u, N(4), N(8)])
    t = ("ln", arg) if b == ("e",) else ("log", arg, b)
    if rng.random() < 0.35:
        # a base that is a power of the one in the argument, or of the argument itself
        k = rng.choice([2, 3, 4, 10])
        q = lambda: rng.choice([N(k), N(1, k), N(k * k), N(1, k * k), N(3, 2), N(2, 3)])
        t = ("log", rng.choice([("^", q(), u), ("^", q(), u), q(), ("*", q(), u)]), q())
    return rng.choice([t, ("*", t, _u(rng)), ("^", t, N(2)), ("+", t, _u(rng))])


def prodpow(rng):
    c = rng.choice([N(4), N(-4), N(1, 9), N(-1), N(2), N(-8, 27), N(3, 2)])
    fs = [c] + [_u(rng) for _ in range(rng.choice([1, 2, 2]))]
    x = N(*rng.choice([(1, 2), (-1, 2), (1, 3), (3, 2), (2, 1), (3, 1), (-1, 1), (-2, 1), (-3, 1), (2, 3)]))
    return ("^", ("*",) + tuple(fs), x)


def absolute(rng):
    u = _u(rng, 2)
    t = ("abs", rng.choice([u, ("neg", u), ("*", N(*rng.choice([(-3, 1), (2, 5), (-1, 2)])), u), ("^", u, N(2)), ("sqrt", u),
                            ("*", u, _u(rng)), ("abs", u), ("-", ("neg", u), _u(rng)), ("/", u, _u(rng)), ("^", ("e",), u)]))
    return rng.choice([t, ("*", t, _u(rng)), ("^", t, N(2)), ("+", t, _u(rng))])


def bases(rng):
    b = rng.choice([V("x"), V("x"), ("+", V("x"), N(1)), ("-", V("x"), V("y")), ("sin", V("x")), ("e",), N(2), ("pi",),
                    ("neg", ("+", V("x"), V("y"))), N(6)])
    xs = [rng.choice([N(1), N(2), N(-1), N(-2), N(1, 2), N(-1, 2), N(1, 3), N(3, 2), V("z"), ("neg", V("z")), ("*", N(2), V("z")),
                      ("+", V("z"), N(1)), ("/", V("z"), N(2))]) for _ in range(rng.choice([2, 2, 3, 4]))]
    fs = [("^", b, x) if rng.random() < 0.9 else ("^", ("neg", b), x) for x in xs]
    if rng.random() < 0.5:
        fs.insert(rng.randrange(len(fs) + 1), _u(rng))
    r = fs[0]
    if rng.random() < 0.3:
        for f in fs[1:]:
            r = (rng.choice(["*", "/"]), r, f)
        return r
    return ("*",) + tuple(fs)


def alike(rng):
    t = _u(rng, 2)
    ts = [rng.choice([t, ("neg", t), ("*", gen.rnum(rng), t), ("*", t, gen.rnum(rng)), ("/", t, gen.rnum(rng)), _u(rng), gen.rnum(rng)])
          for _ in range(rng.choice([3, 4, 5]))]
    return ("+",) + tuple(ts)


SHAPES = (explog, powpow, logpow, prodpow, absolute, bases, alike)


def make(rng, i, tier):
    if i % 3 == 2:
        sh = SHAPES[(i // 3) % len(SHAPES)]
        while True:
            r = sh(rng)
            if rng.random() < (0.25 if sh is absolute else 0.1):
                r = gen.decimals(rng, r)
            if gen.tame(r) and gen.size(r) < 60:
                return {"r": r, "style": STYLES[(i // 21) % 3], "pt": rng.getrandbits(40)}
    prof = gen.PROFILES[("alg", "rad", "full", "trig", "full", "rad")[i % 6]]
    r = gen.recipe(rng, prof, rng.choice([2, 3, 3, 4] if tier == "quick" else [2, 3, 3, 4, 4, 4, 5]))
    if rng.random() < 0.12:
        r = gen.decimals(rng, r)
    return {"r": r, "style": STYLES[(i // 6) % 3], "pt": rng.getrandbits(40)}


def run(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["pt"], names, 8)
    with assumptions() as A:
        e = build(r, case["style"], pts)
    if e is None:
        obs.add("undefined_recipes_refused")
        return None
    inexact = gen.has_float(r)
    n = judge(denoter(r), evaluator(e), pts, obs, A, inexact,
              lambda: "%s was built as %s" % (gen.show(r), srepr(e)))
    obs.add("assumptions", A.events)
    if n < (2 if names else 1):
        return None
    for k in gen.ops(r):
        obs.add("op_" + k)
    return (gen.show(r), case["style"])


def _probe_d1():
    x = X.Symbol("x")
    v = ((x**2) ** Fraction(3, 2)).subs({"x": -2})
    return "((x^2)^(3/2)).subs(x=-2) is -8" if v == -8 else None


KNOWN = {"D1": _probe_d1}


def shrink(case, fails):
    r = gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s)))
    return dict(case, r=r)


def describe(case):
    return "%s [%s]" % (gen.show(gen.tup(case["r"])), case["style"])
