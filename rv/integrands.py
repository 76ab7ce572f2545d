"""Integrands: recipes in the variable x shaped after what the integrator is built to solve."""
from . import gen

N, V = gen.N, gen.V
x = V("x")


def nz(rng, lo=-6, hi=6):
    while True:
        v = rng.randint(lo, hi)
        if v:
            return v


def coef(rng, p=0.3):
    """a coefficient: small integer, fraction, pi, e, a root or another symbol"""
    c = rng.random()
    if c > p:
        return N(nz(rng))
    if c < p * 0.6:
        return N(nz(rng, -9, 9), rng.choice([2, 3, 4, 5, 7]))
    return rng.choice([("pi",), ("e",), V("y"), V("y"), ("sqrt", N(2)), ("/", N(1), V("y"))])


def lin(rng, plain=0.3):
    """x, a*x, a*x + b"""
    c = rng.random()
    if c < plain:
        return x
    a = N(rng.choice([2, 3, -1, 5, -2, 4])) if rng.random() < 0.75 else N(nz(rng), rng.choice([2, 3, 4]))
    t = rng.choice([("*", a, x), ("*", a, x), ("/", x, N(rng.choice([2, 3, 5])))])
    if c < 0.55:
        return t
    b = N(nz(rng)) if rng.random() < 0.8 else rng.choice([("pi",), V("y"), N(1, 2)])
    return (rng.choice("+-"), rng.choice([t, x]), b)


def scale(rng, r):
    return ("*", coef(rng), r) if rng.random() < 0.35 else r


def poly(rng):
    k = rng.random()
    if k < 0.5:
        ts = tuple(("*", coef(rng), ("^", x, N(rng.randint(0, 6)))) for _ in range(rng.choice([1, 2, 3, 4])))
        return ("+",) + ts if len(ts) > 1 else ts[0]
    if k < 0.8:
        return ("^", lin(rng), N(rng.choice([2, 3, 4, 5, 9])))
    return ("*", ("+", lin(rng), N(nz(rng))), ("^", lin(rng), N(rng.choice([1, 2, 3]))))


def powers(rng):
    q = N(*rng.choice([(1, 2), (-1, 2), (3, 2), (1, 3), (-2, 3), (-3, 2), (5, 3), (-1, 1), (-2, 1), (-3, 1), (7, 4)]))
    k = rng.random()
    if k < 0.35:
        return ("^", x, q)
    if k < 0.7:
        return ("^", lin(rng), q)
    if k < 0.85:
        return ("*", ("^", x, N(rng.randint(1, 3))), ("^", x, q))
    return ("/", ("+", ("^", x, N(rng.randint(1, 3))), N(nz(rng))), ("^", x, rng.choice([N(1, 2), N(1), N(2), N(1, 3)])))


def trig1(rng):
    u = lin(rng)
    return rng.choice([
        ("sin", u), ("cos", u), ("tan", u), ("sec", u), ("csc", u), ("cot", u), ("^", ("sec", u), N(2)), ("^", ("csc", u), N(2)),
        ("*", ("sec", u), ("tan", u)), ("*", ("csc", u), ("cot", u)), ("^", ("tan", u), N(2)), ("^", ("cot", u), N(2)),
        ("^", ("sin", u), N(2)), ("^", ("cos", u), N(2)), ("/", N(1), ("^", ("cos", u), N(2))), ("/", ("sin", u), ("cos", u)),
        ("/", N(1), ("sin", u)), ("/", ("sin", u), ("^", ("cos", u), N(2))),
    ])


def trigpow(rng):
    u = lin(rng, 0.6)
    m, n = rng.choice([(3, 0), (0, 3), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 0), (0, 4), (5, 0), (3, 2), (2, 3),
                       (1, 4), (5, 2), (0, 5), (3, 3)])
    fs = tuple(("^", (f, u), N(k)) for f, k in (("sin", m), ("cos", n)) if k)
    return ("*",) + fs if len(fs) > 1 else fs[0]


def trigprod(rng):
    a, b = lin(rng), lin(rng)
    return ("*", (rng.choice(["sin", "cos"]), a), (rng.choice(["sin", "cos"]), b))


def sectan(rng):
    u = lin(rng, 0.6)
    m, n = rng.choice([(2, 1), (2, 2), (2, 3), (4, 0), (4, 1), (1, 1), (3, 1), (0, 3), (0, 4), (2, 5), (4, 2)])
    s, t = rng.choice([("sec", "tan"), ("sec", "tan"), ("csc", "cot")])
    fs = tuple(("^", (f, u), N(k)) for f, k in ((s, m), (t, n)) if k)
    return ("*",) + fs if len(fs) > 1 else fs[0]


def expo(rng):
    u = lin(rng)
    b = rng.choice([("e",), ("e",), ("e",), N(2), N(3), N(5, 2), V("y")])
    return rng.choice([("^", b, u), ("^", b, u), ("/", N(1), ("^", b, u)), ("+", ("^", b, u), ("^", b, ("neg", u))),
                       ("^", ("+", ("^", ("e",), x), N(nz(rng))), N(2))])


def parts(rng):
    u = lin(rng, 0.5)
    p = ("^", x, N(rng.choice([1, 1, 1, 2, 2, 3])))
    return rng.choice([
        ("*", p, ("^", ("e",), u)), ("*", p, ("sin", u)), ("*", p, ("cos", u)), ("*", p, ("ln", x)), ("*", p, ("ln", u)),
        ("*", x, ("^", ("sec", x), N(2))), ("*", ("^", ("e",), x), ("sin", u)), ("*", ("^", ("e",), u), ("cos", x)),
        ("*", p, ("atan", x)), ("*", ("+", x, N(nz(rng))), ("^", ("e",), u)), ("*", ("+", x, N(nz(rng))), ("sin", u)),
        ("*", ("^", x, N(*rng.choice([(1, 2), (-1, 2), (-2, 1), (3, 2)]))), ("ln", x)), ("*", x, ("^", N(2), x)),
        ("*", ("^", x, N(2)), ("^", ("e",), ("neg", x))),
    ])


def logs(rng):
    u = lin(rng)
    return rng.choice([
        ("ln", u), ("ln", u), ("/", ("^", ("ln", x), N(rng.choice([1, 2, 3]))), x), ("/", N(1), ("*", x, ("ln", x))),
        ("log", u, N(rng.choice([2, 3, 10]))), ("^", ("ln", x), N(2)), ("ln", ("^", x, N(rng.choice([2, 3])))),
        ("/", ("ln", x), ("^", x, N(rng.choice([2, 3])))), ("ln", ("sqrt", x)), ("ln", ("/", x, N(3))),
    ])


def inverse(rng):
    f = rng.choice(["asin", "atan", "acos", "atan"])
    return rng.choice([(f, x), (f, lin(rng)), ("*", x, (f, x)), ("/", (f, x), ("+", N(1), ("^", x, N(2)))),
                       ("*", ("^", x, N(2)), (f, x))])


def rational(rng):
    k = rng.randrange(9)
    l1, l2 = ("+", ("*", N(nz(rng, -4, 4)), x), N(nz(rng))), ("+", ("*", N(nz(rng, -4, 4)), x), N(nz(rng)))
    if k == 0:
        return ("/", l1, l2)
    if k == 1:
        return ("/", rng.choice([N(1), l1, x]), ("*", ("+", x, N(nz(rng))), l2))
    if k == 2:
        return ("/", poly(rng), l2)
    if k == 3:
        a = rng.choice([N(nz(rng, 1, 9)), N(1), N(4), N(9), N(1, 4), ("^", V("y"), N(2))])
        return ("/", rng.choice([N(1), x, l1]), ("+", ("*", N(nz(rng, 1, 4)), ("^", x, N(2))), a))
    if k == 4:
        h, d = nz(rng), nz(rng, 1, 9)  # (x + h)^2 + d
        return ("/", rng.choice([N(nz(rng)), N(1), l1]), ("+", ("^", x, N(2)), ("*", N(2 * h), x), N(h * h + d)))
    if k == 5:
        p, q = nz(rng), nz(rng)
        return ("/", rng.choice([N(1), l1]), ("+", ("^", x, N(2)), ("*", N(p + q), x), N(p * q)))
    if k == 6:
        return ("/", ("^", x, N(rng.choice([2, 3, 4]))), ("+", ("^", x, N(2)), N(nz(rng, 1, 5))))
    if k == 7:
        return ("/", N(nz(rng)), ("^", l1, N(rng.choice([1, 2, 3]))))
    return ("/", N(1), ("*", x, ("+", x, N(nz(rng)))))


def usub(rng):
    n = rng.choice([2, 2, 3, 4])
    xn = ("^", x, N(n))
    dn = ("^", x, N(n - 1))
    inner = rng.choice([xn, ("+", xn, N(nz(rng))), ("*", N(nz(rng)), xn), ("-", N(nz(rng)), xn)])
    f = rng.choice([("^", ("e",), inner), ("sin", inner), ("cos", inner), ("^", inner, N(*rng.choice([(1, 2), (3, 1), (-1, 1), (-2, 1), (-1, 2)]))),
                    ("^", ("sec", inner), N(2)), ("^", inner, N(5)), ("*", ("sin", inner), ("cos", inner))])
    k = rng.random()
    if k < 0.5:
        return ("*", dn, f)
    g = rng.choice([("sin", x), ("cos", x), ("tan", x), ("ln", x), ("^", ("e",), x), ("atan", x), ("asin", x), ("sqrt", x)])
    dg = {"sin": ("cos", x), "cos": ("sin", x), "tan": ("^", ("sec", x), N(2)), "ln": ("/", N(1), x), "^": ("^", ("e",), x),
          "atan": ("/", N(1), ("+", N(1), ("^", x, N(2)))), "asin": ("/", N(1), ("sqrt", ("-", N(1), ("^", x, N(2))))),
          "sqrt": ("/", N(1), ("sqrt", x))}[g[0]]
    h = rng.choice([("^", ("e",), g), ("^", g, N(*rng.choice([(2, 1), (3, 1), (1, 2), (-1, 1), (-2, 1)]))), ("sin", g), ("cos", g),
                    ("/", N(1), ("+", N(1), ("^", g, N(2)))), ("^", ("+", g, N(nz(rng))), N(rng.choice([2, 3, -1])))])
    return ("*", dg, h)


def roots(rng):
    a = N(rng.choice([1, 4, 9, 2, 16, 25, 3]))
    q = ("-", a, rng.choice([("^", x, N(2)), ("^", x, N(2)), ("*", N(rng.choice([2, 4, 9])), ("^", x, N(2)))]))
    return rng.choice([
        ("/", N(1), ("sqrt", q)), ("/", x, ("sqrt", q)), ("sqrt", q), ("*", x, ("sqrt", q)), ("*", x, ("sqrt", ("+", x, N(nz(rng))))),
        ("/", x, ("sqrt", ("+", ("^", x, N(2)), a))), ("sqrt", lin(rng)), ("/", N(1), ("sqrt", lin(rng))),
        ("/", ("^", x, N(3)), ("sqrt", q)), ("/", N(1), ("sqrt", ("-", ("*", N(nz(rng, 1, 9)), x), ("^", x, N(2))))),
        ("/", N(1), ("*", N(1), ("^", q, N(3, 2)))),
    ])


def symbolic(rng):
    y = V("y")
    return rng.choice([
        ("*", y, ("^", x, N(rng.randint(1, 4)))), ("sin", ("*", y, x)), ("^", ("+", x, y), N(rng.choice([2, 3, -1]))),
        ("^", ("e",), ("*", y, x)), ("^", x, y), ("*", x, ("^", ("e",), ("*", y, x))), ("/", x, ("+", x, y)), ("*", x, y, V("z")),
        ("/", N(1), ("+", ("^", x, N(2)), ("^", y, N(2)))), ("+", ("*", x, y), ("*", N(3), x)), ("*", ("sin", y), ("cos", x)),
        ("ln", ("*", y, x)), ("/", y, x), ("^", y, N(3)), ("*", ("cos", ("+", x, y)), y), ("/", ("sin", x), ("+", y, N(1))),
        ("*", x, (rng.choice(["sin", "cos"]), rng.choice([("*", y, x), ("+", x, y), ("-", y, x)]))),
        ("*", ("^", x, N(2)), rng.choice([("cos", ("*", x, y)), ("^", ("e",), ("*", x, y)), ("^", ("e",), ("+", x, y))])),
        ("*", x, ("^", ("+", x, y), N(*rng.choice([(1, 2), (3, 1), (-2, 1), (-1, 2), (1, 3)])))),
        ("*", ("^", ("e",), ("*", rng.choice([x, y]), N(rng.randint(1, 3)))), ("sin", rng.choice([x, ("*", x, y)]))),
        ("*", x, ("ln", rng.choice([("+", x, y), ("*", x, y)]))), ("/", ("ln", x), ("+", y, N(2))), ("*", x, y, ("sec", ("*", x, y))),
    ])


KINDS = {"poly": poly, "powers": powers, "trig1": trig1, "trigpow": trigpow, "trigprod": trigprod, "sectan": sectan, "expo": expo,
         "parts": parts, "logs": logs, "inverse": inverse, "rational": rational, "usub": usub, "roots": roots,
         "symbolic": symbolic}
NAMES = sorted(KINDS)


def make(rng, kind):
    r = KINDS[kind](rng)
    return scale(rng, r)


def mix(rng):
    a, b = (make(rng, rng.choice(NAMES)) for _ in range(2))
    return (rng.choice("+-"), a, b)
