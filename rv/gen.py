"""Recipes: small tuples that denote a mathematical expression, and ways to build them with simpy.

    ('n', p, q)  ('f', float)  ('v', name)  ('pi',)  ('e',)
    ('+', a, b, ...)  ('*', a, b, ...)  ('-', a, b)  ('neg', a)  ('/', a, b)  ('^', a, b)
    ('sqrt', a)  ('abs', a)  ('ln', a)  ('log', a, base)  ('sin', a) ... ('atan', a)

A recipe is independent of simpy; num.den() gives its meaning.
"""
from fractions import Fraction

from . import load  # noqa: F401
from simpy import expr as X

FN1 = {
    "sin": X.sin, "cos": X.cos, "tan": X.tan, "sec": X.sec, "csc": X.csc, "cot": X.cot,
    "asin": X.asin, "acos": X.acos, "atan": X.atan,
}


def tup(o):
    """JSON lists back to tuples"""
    return tuple(tup(i) for i in o) if isinstance(o, (list, tuple)) else o


def N(p, q=1):
    f = Fraction(p, q)
    return ("n", f.numerator, f.denominator)


def V(name):
    return ("v", name)


def is_num(r):
    return r[0] == "n"


def kids(r):
    return [k for k in r[1:] if isinstance(k, tuple)]


def with_kids(r, ks):
    if r[0] in ("n", "v", "f", "pi", "e"):
        return r
    return (r[0],) + tuple(ks)


def size(r):
    return 1 + sum(size(k) for k in kids(r))


def variables(r, out=None):
    out = set() if out is None else out
    if r[0] == "v":
        out.add(r[1])
    for k in kids(r):
        variables(k, out)
    return out


def ops(r, out=None):
    out = {} if out is None else out
    out[r[0]] = out.get(r[0], 0) + 1
    for k in kids(r):
        ops(k, out)
    return out


def has_float(r):
    return r[0] == "f" or any(has_float(k) for k in kids(r))


def show(r):
    op = r[0]
    if op == "n":
        return str(r[1]) if r[2] == 1 else "(%d/%d)" % (r[1], r[2])
    if op == "f":
        return repr(r[1])
    if op == "v":
        return r[1]
    if op in ("pi", "e"):
        return op
    if op in ("+", "*"):
        return "(" + (" %s " % op).join(show(k) for k in r[1:]) + ")"
    if op in ("-", "/", "^"):
        return "(%s %s %s)" % (show(r[1]), op, show(r[2]))
    if op == "neg":
        return "(-%s)" % show(r[1])
    return "%s(%s)" % (op, ", ".join(show(k) for k in r[1:]))


# ------------------------------------------------------------------ building with simpy


def _raw(r):
    """a plain Python number for a numeric leaf, as a user would type it"""
    return r[1] if r[2] == 1 else Fraction(r[1], r[2])


def build(r, style="op"):
    """build with simpy. style 'op': Python operators on what users type (ints, Fractions);
    'ctor': the constructors Sum/Prod/Power directly; 'rat': operators, numbers always Rat."""
    v = _build(r, style)
    return v if isinstance(v, X.Expr) else X.Const(v)


def _expr(v):
    return v if isinstance(v, X.Expr) else X.Const(v)


def _build(r, style):
    op = r[0]
    if op == "n":
        return X.Rat(Fraction(r[1], r[2])) if style == "rat" else _raw(r)
    if op == "f":
        return r[1]
    if op == "v":
        return X.Symbol(r[1])
    if op == "pi":
        return X.pi
    if op == "e":
        return X.e
    a = [_build(k, style) for k in r[1:]]
    if style == "ctor":
        if op == "+":
            return X.Sum(a)
        if op == "*":
            return X.Prod(a)
        if op == "^":
            return X.Power(a[0], a[1])
        if op == "-":
            return X.Sum([a[0], X.Prod([-1, a[1]])])
        if op == "neg":
            return X.Prod([-1, a[0]])
        if op == "/":
            return X.Prod([a[0], X.Power(a[1], -1)])
        if op == "sqrt":
            return X.Power(a[0], Fraction(1, 2))
    if op == "+":
        v = _expr(a[0])
        for t in a[1:]:
            v = v + t
        return v
    if op == "*":
        v = _expr(a[0])
        for t in a[1:]:
            v = v * t
        return v
    if op == "-":
        return _two(a)[0] - _two(a)[1]
    if op == "neg":
        return -_expr(a[0])
    if op == "/":
        x, y = _two(a)
        return x / y
    if op == "^":
        x, y = _two(a)
        if isinstance(x, Fraction):
            x = X.Rat(x)  # Fraction.__pow__ turns itself into a float before simpy is asked
        return x**y
    if op == "sqrt":
        return X.sqrt(a[0])
    if op == "abs":
        return abs(_expr(a[0]))
    if op == "ln":
        return X.log(a[0])
    if op == "log":
        return X.log(a[0], a[1])
    return FN1[op](a[0])


def _two(a):
    """at least one side must be an Expr for the overloaded operators to be simpy's"""
    if isinstance(a[0], X.Expr) or isinstance(a[1], X.Expr):
        return a
    return [_expr(a[0]), a[1]]


# ------------------------------------------------------------------ random recipes


class Profile:
    def __init__(self, leaves, nodes, depth, syms=("x", "y", "z")):
        self.leaves, self.nodes, self.depth, self.syms = leaves, nodes, depth, syms


SMALL = [-7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 8, 9, 12]
FRACS = [(1, 2), (-1, 2), (1, 3), (2, 3), (-3, 4), (3, 2), (5, 2), (-7, 3), (1, 4), (5, 6), (4, 9), (9, 4), (-1, 6)]


def rnum(rng, zero=False):
    c = rng.random()
    if zero and c < 0.04:
        return N(0)
    if c < 0.62:
        return N(rng.choice(SMALL))
    if c < 0.9:
        return N(*rng.choice(FRACS))
    if c < 0.97:
        return N(rng.randint(-60, 60) or 7, rng.randint(1, 24))
    return N(rng.choice([1, -1]) * rng.randint(10**6, 10**12), rng.choice([1, 1, 1, 7, 1000003]))


def choose(rng, weights):
    t = rng.random() * sum(w for _, w in weights)
    for k, w in weights:
        t -= w
        if t <= 0:
            return k
    return weights[-1][0]


ALG = Profile(
    [("v", 6), ("n", 4)],
    [("+", 5), ("*", 5), ("-", 2), ("/", 2), ("^i", 3), ("neg", 1)],
    4,
)
RAD = Profile(
    [("v", 6), ("n", 4), ("pi", 0.4), ("e", 0.3)],
    [("+", 4), ("*", 5), ("-", 2), ("/", 3), ("^i", 3), ("^q", 2), ("sqrt", 2), ("neg", 1), ("abs", 0.7)],
    4,
)
FULL = Profile(
    [("v", 7), ("n", 4), ("pi", 0.7), ("e", 0.5), ("f", 0.25)],
    [
        ("+", 5), ("*", 5), ("-", 2), ("/", 2), ("^i", 2.5), ("^q", 0.8), ("sqrt", 1), ("neg", 1), ("abs", 0.6),
        ("trig", 4), ("inv", 1.2), ("ln", 1.2), ("log", 0.5), ("exp", 1), ("^g", 0.4),
    ],
    4,
)
TRIG = Profile(
    [("v", 7), ("n", 3), ("pi", 1)],
    [("+", 5), ("*", 5), ("-", 2), ("/", 1.2), ("^i", 2.5), ("neg", 1), ("trig", 7)],
    4,
)

PROFILES = {"alg": ALG, "rad": RAD, "full": FULL, "trig": TRIG}


def rexpr(rng, prof, depth=None):
    depth = prof.depth if depth is None else depth
    if depth <= 0 or rng.random() < 0.13:
        k = choose(rng, prof.leaves)
        if k == "v":
            return V(rng.choice(prof.syms))
        if k == "n":
            return rnum(rng, zero=True)
        if k == "f":
            return ("f", rng.choice([0.5, 1.5, -2.25, 0.125, 3.75]))
        return (k,)
    k = choose(rng, prof.nodes)
    d = depth - 1
    sub = lambda: rexpr(rng, prof, d)
    if k in ("+", "*"):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        return (k,) + tuple(sub() for _ in range(n))
    if k in ("-", "/"):
        return (k, sub(), sub())
    if k == "^i":
        return ("^", sub(), N(rng.choice([2, 2, 2, 3, 3, 4, -1, -2, -3, 0, 1, 5])))
    if k == "^q":
        return ("^", sub(), N(*rng.choice([(1, 2), (3, 2), (-1, 2), (1, 3), (2, 3), (-2, 3), (1, 4), (5, 2), (-3, 2)])))
    if k == "^g":
        return ("^", sub(), rexpr(rng, prof, min(d, 1)))
    if k == "exp":
        return ("^", ("e",), sub())
    if k == "trig":
        return (rng.choice(["sin", "cos", "tan", "sin", "cos", "tan", "sec", "csc", "cot"]), sub())
    if k == "inv":
        return (rng.choice(["asin", "acos", "atan"]), sub())
    if k == "log":
        return ("log", sub(), logbase(rng, prof))
    return (k, sub())


def logbase(rng, prof):
    c = rng.random()
    if c < 0.5:
        return N(rng.choice([2, 3, 10, 5]))
    if c < 0.65:
        return N(*rng.choice([(1, 2), (3, 2), (1, 3), (7, 5)]))
    if c < 0.7:
        return ("pi",)
    v = V(rng.choice(prof.syms))
    if c < 0.82:
        return v
    return rng.choice([("+", v, N(rng.randint(1, 4))), ("abs", v), ("*", N(rng.randint(2, 3)), v), ("^", v, N(2)), ("sqrt", v), ("^", ("e",), v),
                       ("+", N(3), ("sin", v))])


def decimals(rng, r, share=0.4):
    """the same shape with some of its numbers (no exponents and no logarithm bases) written as decimals"""
    def go(t):
        if t[0] == "n":
            return ("f", rng.choice([0.5, -0.5, 1.5, -1.5, 0.25, 2.0, -2.0, 1.0, -1.0, 0.1, -0.75, 3.7, 12.5, -0.001])) if rng.random() < share else t
        ks = kids(t)
        return with_kids(t, [go(k) if not (i and t[0] in ("^", "log")) else k for i, k in enumerate(ks)]) if ks else t

    q = go(r)
    if q == r:
        q = ("*", ("f", rng.choice([-1.5, 0.5, 2.5, -2.0, -0.25])), r)
    return q if tame(q) else r


# ------------------------------------------------------------------ sample points


def rpoint(rng, names):
    """a rational sample point; the denominators keep it off every special value"""
    env = {}
    mode = rng.random()
    for n in sorted(names):
        c = rng.random()
        if mode < 0.3:
            v = Fraction(rng.randint(300, 3100), 997)  # all positive
        elif mode < 0.45:
            v = Fraction(rng.randint(50, 960), 997) * (1 if c < 0.6 else -1)  # inside (-1, 1)
        else:
            v = Fraction(rng.randint(200, 3300), 997) * (1 if c < 0.55 else -1)
        if v.denominator == 1:  # an integer would make some generic power an integer power
            v += Fraction(1, 997)
        env[n] = v
    return env


def env_json(env):
    return {k: [v.numerator, v.denominator] for k, v in env.items()}


def env_from(j):
    return {k: Fraction(a, b) for k, (a, b) in j.items()}


# ------------------------------------------------------------------ shrinking


def shrinks(r):
    """smaller recipes, biggest cuts first"""
    if r[0] in ("n",):
        if (r[1], r[2]) not in ((1, 1), (2, 1), (0, 1)):
            yield N(2)
            yield N(1)
            if r[2] != 1:
                yield N(r[1])
        return
    if r[0] in ("v", "pi", "e", "f"):
        return
    for k in kids(r):
        yield k
    ks = kids(r)
    if r[0] in ("+", "*") and len(ks) > 2:
        for i in range(len(ks)):
            yield (r[0],) + tuple(ks[:i] + ks[i + 1:])
    for i, k in enumerate(ks):
        if r[0] == "log" and i == 1 and k[0] == "n":
            continue
        for s in shrinks(k):
            yield with_kids(r, ks[:i] + [s] + ks[i + 1:])


def shrink(r, failing, budget=400):
    """greedy: keep any smaller recipe on which `failing` still holds"""
    n = 0
    changed = True
    while changed and n < budget:
        changed = False
        for s in shrinks(r):
            n += 1
            if n >= budget:
                break
            try:
                if size(s) <= size(r) and s != r and failing(s):
                    r = s
                    changed = True
                    break
            except Exception:
                continue
    return r


def tame(r, acc=1.0):
    """no tower of constant exponents that would need astronomically large exact integers"""
    if r[0] == "^":
        if not variables(r[2]):
            from . import num

            try:
                x = abs(num.den(r[2], {}, num.FLOAT))
            except Exception:
                return False
            acc2 = acc * max(1.0, x)
            if acc2 > 150 or not tame(r[2]):
                return False
            return tame(r[1], acc2)
        return tame(r[1], acc * 8) and tame(r[2])
    return all(tame(k, acc) for k in kids(r))


def recipe(rng, prof, depth=None):
    if isinstance(prof, str):
        prof = PROFILES[prof]
    while True:
        r = rexpr(rng, prof, depth)
        if tame(r):
            return r
