"""Textbook integrands that the integrator solves whatever the numbers in them are (used by C14)."""
from . import gen
from .integrands import coef, lin, nz, poly, trigpow, trigprod, expo

N, V = gen.N, gen.V
x = V("x")
E = ("e",)
POWERS = [1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10]


def monomial(rng):
    q = N(rng.randint(-6, 9)) if rng.random() < 0.5 else N(nz(rng, -9, 9), rng.choice([2, 3, 4, 5, 7]))
    return ("^", x, q)


def root_linear(rng):
    return ("^", lin(rng), N(*rng.choice([(1, 2), (-1, 2), (3, 2), (1, 3), (-2, 3), (-1, 1), (2, 1), (4, 1), (5, 2), (-3, 2)])))


def trig_linear(rng):
    u = lin(rng)
    return rng.choice([("sin", u), ("cos", u), ("tan", u), ("cot", u), ("sec", u), ("^", ("sec", u), N(2)), ("^", ("tan", u), N(2)),
                       ("^", ("sin", u), N(2)), ("^", ("cos", u), N(2)), ("/", N(1), ("^", ("cos", u), N(2)))])


def csc2(rng):
    return ("^", ("csc", lin(rng)), N(2))


def parts_exp(rng):
    a = rng.choice([1, 2, 3, -1, -2, 5])
    return ("*", ("^", x, N(rng.choice(POWERS))), ("^", E, ("*", N(a, rng.choice([1, 1, 2, 3])), x)))


def parts_trig(rng):
    a = rng.choice([1, 2, 3, -1, -2, 5])
    return ("*", ("^", x, N(rng.choice(POWERS))), (rng.choice(["sin", "cos"]), ("*", N(a, rng.choice([1, 1, 2, 3])), x)))


def parts_shift(rng):
    u = lin(rng)
    return ("*", x, rng.choice([("^", E, u), ("sin", u), ("cos", u)]))


def exp_trig(rng):
    return ("*", ("^", E, x), (rng.choice(["sin", "cos"]), rng.choice([x, ("*", N(rng.choice([2, 3, 4, -2])), x)])))


def inverses(rng):
    return rng.choice([("ln", x), ("asin", x), ("acos", x), ("atan", x), ("ln", lin(rng)), ("atan", ("*", N(nz(rng)), x))])


def over_linear(rng):
    p = rng.choice([N(nz(rng)), x, ("+", x, N(nz(rng))), ("^", x, N(rng.choice([2, 3, 4]))), poly(rng)])
    return ("/", p, ("+", ("*", N(nz(rng, -4, 4)), x), N(nz(rng))))


def two_factors(rng):
    p = nz(rng)
    while True:
        q = nz(rng)
        if abs(q) != abs(p):  # 1/((x + a)(x - a)) is not solved
            break
    num = rng.choice([N(nz(rng)), N(1), x, ("+", ("*", N(nz(rng)), x), N(nz(rng)))])
    return ("/", num, ("*", ("+", x, N(p)), ("+", x, N(q))))


def unfactored(rng):
    """a linear over a x^2 + b x, multiplied out"""
    while True:
        a, b = rng.randint(1, 9), nz(rng)
        if min(a, abs(b)) == 1 or (a % b and b % a):  # otherwise a number is pulled out as well, which is a third factor
            break
    num = rng.choice([N(nz(rng)), N(1), ("+", ("*", N(nz(rng)), x), N(nz(rng))), ("+", ("*", N(nz(rng)), x), N(nz(rng), rng.choice([2, 3])))])
    return ("/", num, ("+", ("*", N(a), ("^", x, N(2))), ("*", N(b), x)))


def arctan(rng):
    return ("/", N(nz(rng)), ("+", N(1), ("^", ("*", N(nz(rng, 1, 5)), x), N(2))))


def square(rng):
    h, d = nz(rng), rng.randint(1, 9)
    return ("/", N(nz(rng)), ("+", ("^", x, N(2)), ("*", N(2 * h), x), N(h * h + d)))


def arcsin(rng):
    return ("/", N(nz(rng)), ("sqrt", ("-", N(1), ("^", x, N(2)))))


def circle(rng):
    return ("*", N(nz(rng)), ("sqrt", ("-", N(1), ("^", x, N(2)))))


def usub_power(rng):
    n = rng.choice([2, 3, 4])
    u = rng.choice([("^", x, N(n)), ("+", ("^", x, N(n)), N(nz(rng))), ("*", N(nz(rng)), ("^", x, N(n)))])
    qs = [(1, 2), (3, 1), (-1, 1), (-1, 2), (4, 1), (1, 3)] if u[0] == "+" else [(2, 1), (3, 1)]
    f = rng.choice([("^", E, u), ("sin", u), ("cos", u), ("^", u, N(*rng.choice(qs))), ("^", ("sec", u), N(2))])
    return ("*", ("^", x, N(n - 1)), f)


def usub_trig(rng):
    s, c = rng.choice([("sin", "cos"), ("cos", "sin")])
    f = (s, x)
    g = rng.choice([("^", E, f), ("^", f, N(*rng.choice([(2, 1), (5, 1), (1, 2), (-1, 1), (-2, 1), (1, 3)]))), ("sin", f), ("cos", f),
                    ("^", ("+", f, N(nz(rng))), N(rng.choice([2, 3, -1])))])
    return ("*", (c, x), g)


def tan_sec2(rng):
    f = ("tan", x)
    return ("*", ("^", ("sec", x), N(2)), rng.choice([("^", f, N(rng.choice([1, 2, 3, 4]))), ("^", E, f), ("sqrt", f), ("^", ("+", f, N(rng.choice([2, 3, -2, 5, -4]))), N(2))]))


FAMILIES = {f.__name__: f for f in (
    poly, monomial, root_linear, trig_linear, csc2, expo, trigpow, trigprod, parts_exp, parts_trig, parts_shift, exp_trig, inverses,
    over_linear, two_factors, unfactored, arctan, square, arcsin, circle, usub_power, usub_trig, tan_sec2)}


def member(rng):
    name = rng.choice(sorted(FAMILIES))
    r = FAMILIES[name](rng)
    if rng.random() < 0.4:
        c = coef(rng)
        if not (name == "exp_trig" and c == E):  # e * e^x is e^(x + 1), which is not recognised again after two rounds by parts
            r = ("*", c, r)
    return name, r
