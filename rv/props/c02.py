"""C02 trigonometric constructors: exact special values, periodicity, parity, inverse compositions"""
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation

ID = "C02"
RULE = (
    "fixed part: sin..cot at k*pi/d for d in 1..12 and k in -4d..4d, each spelled in four ways (exhaustive), plus "
    "inverse functions at 0 and +-1; random part: f(u + m*pi), f(-u), f(float), f(g(u)) for g inverse or direct, with "
    "random u; a case counts when its value was compared at 40 digits (or its pole seen); distinct by the case itself"
)
COUNT = {"quick": 6000, "thorough": 60000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 3000, "thorough": 5000}
SIX = ("sin", "cos", "tan", "sec", "csc", "cot")
INV = ("asin", "acos", "atan")
SPELL = ("coef", "ratio", "left", "sumsplit")


def fixed(tier):
    out = []
    for d in range(1, 13):
        for k in range(-4 * d, 4 * d + 1):
            if Fraction(k, d).denominator != d:
                continue
            for f in SIX:
                for s in SPELL:
                    out.append({"k": "special", "f": f, "p": k, "q": d, "spell": s})
    for f in INV:
        for v in (0, 1, -1):
            out.append({"k": "inv", "f": f, "v": v})
    return out


def make(rng, i, tier):
    kind = ("shift", "parity", "comp", "comp", "nest", "float", "shift")[i % 7]
    u = gen.recipe(rng, rng.choice(["alg", "rad", "trig"]), rng.choice([0, 1, 1, 2, 2, 3]))
    c = {"k": kind, "f": rng.choice(SIX), "u": u, "pt": rng.getrandbits(40)}
    if kind == "shift":
        c["m"] = rng.choice([-6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8, 100, -101])
        c["q"] = rng.choice([1, 1, 1, 2, 3, 4, 6])
        c["where"] = rng.choice(["l", "r", "mid"])
    if kind == "comp":
        c["g"] = rng.choice(INV)
        if rng.random() < 0.5:  # keep the argument in [-1, 1] most of the time
            c["u"] = rng.choice([gen.V("x"), ("*", gen.N(rng.randint(-5, 5) or 1, 6), gen.V("x")),
                                 ("*", gen.V("x"), gen.V("y")), ("/", gen.V("x"), gen.N(rng.choice([-4, 3, 5]))),
                                 ("-", ("^", gen.V("x"), gen.N(2)), gen.N(1))])
    if kind == "nest":
        c["g"] = rng.choice(SIX + INV)
        c["f"] = rng.choice(SIX + INV)
    if kind == "float":
        c["f"] = rng.choice(SIX + INV)
        c["v"] = rng.choice([1, -1]) * rng.choice([0.5, 0.25, 0.875, 0.001, 1.5, 2.75, 3.0, 10.0])
        if c["f"] in ("asin", "acos"):
            c["v"] = max(-0.9, min(0.9, c["v"]))
    return c


def _apply(f, a):
    return gen.FN1[f](a)


def _special(case, obs):
    f, p, q = case["f"], case["p"], case["q"]
    pi = X.pi
    s = case["spell"]

    def arg():
        if s == "coef":
            return Rat(Fraction(p, q)) * pi
        if s == "ratio":
            return p * pi / q
        if s == "left":
            return pi * Fraction(p, q)
        return (p - 1) * pi / q + pi / q

    e = call("%s(%d*pi/%d)" % (f, p, q), lambda: _apply(f, arg()))
    want = (f, ("*", gen.N(p, q), ("pi",)))
    what = "%s(%d*pi/%d) = %s" % (f, p, q, srepr(e))
    coeff = Fraction(p, q) % 2
    pole = {"sin": (), "cos": (), "tan": (1, 3), "sec": (1, 3), "csc": (0, 2), "cot": (0, 2)}[f]
    if coeff * 2 in pole:
        try:
            v = num.val(e, {}, num.FLOAT)
        except num.Undef:
            obs.add("poles")
            return ("pole", f, p, q, s)
        raise Violation("pole", "%s, but the function has a pole there (got %s)" % (what, v))
    if q in (1, 2, 3, 4, 6):
        for n in nodes(e):
            if type(n).__name__ not in ("Rat", "Power", "Prod", "Sum"):
                raise Violation("not-exact", "%s is not a closed form in radicals" % what)
        obs.add("exact_values")
    v = num.compare(denoter(want), evaluator(e), {})
    if v.kind != "eq":
        raise Violation("special-value", "%s, but the value is %s" % (what, v.a))
    return ("special", f, p, q, s)


def run(case, obs):
    k = case["k"]
    if k == "special":
        return _special(case, obs)
    if k == "inv":
        f, v = case["f"], case["v"]
        e = call("%s(%d)" % (f, v), lambda: _apply(f, v))
        w = num.compare(denoter((f, gen.N(v))), evaluator(e), {})
        if w.kind != "eq":
            raise Violation("special-value", "%s(%d) is %s" % (f, v, srepr(e)))
        return ("inv", f, v)
    f = case["f"]
    if k == "float":
        e = call("%s(%r)" % (f, case["v"]), lambda: _apply(f, case["v"]))
        w = num.compare(denoter((f, ("f", case["v"]))), evaluator(e), {}, inexact=True)
        if w.kind != "eq":
            raise Violation("float-value", "%s(%r) is %s" % (f, case["v"], srepr(e)))
        return ("float", f, case["v"])
    u = gen.tup(case["u"])
    names = sorted(gen.variables(u))
    pts = envs(case["pt"], names, 8)
    with assumptions() as A:
        return _generic(case, obs, k, f, u, names, pts, A)


def _generic(case, obs, k, f, u, names, pts, A):
    ue = build(u, "op", pts)
    if ue is None:
        return None
    if k == "shift":
        m = Fraction(case["m"], case["q"])
        t = X.pi * Rat(m)
        arg = {"l": lambda: t + ue, "r": lambda: ue + t, "mid": lambda: ue - gen.N(0)[1] + t}[case["where"]]
        r = (f, ("+", u, ("*", gen.N(m.numerator, m.denominator), ("pi",))))
        e = guarded("f(u + m*pi)", lambda: _apply(f, arg()), r, pts)
        if e is not None and m.denominator == 1 and m % 2 == 0 and names and "pi" not in gen.ops(u):
            plain = call("f(u)", lambda: _apply(f, ue))
            if struct(plain) != struct(e):
                raise Violation("period", "%s(u + %s*pi) is %s but %s(u) is %s, for u = %s"
                                % (f, m, srepr(e), f, srepr(plain), srepr(ue)))
            obs.add("whole_periods")
    elif k == "parity":
        r = (f, ("neg", u))
        e = guarded("f(-u)", lambda: _apply(f, -ue), r, pts)
    else:
        r = (f, (case["g"], u))
        if f in INV and case["g"] in SIX:
            # asin(sin u) is rewritten to u whatever u is (tests pin this family); see C01's listed finding
            return None
        g = build((case["g"], u), "op", pts)
        if g is None:
            return None
        e = guarded("%s(%s(%s))" % (f, case["g"], gen.show(u)), lambda: _apply(f, g), r, pts)
        obs.add("compositions")
    if e is None:
        return None
    n = judge(denoter(r), evaluator(e), pts, obs, A, gen.has_float(u),
              lambda: "%s was built as %s" % (gen.show(r), srepr(e)))
    if n < 1:
        return None
    obs.add("fn_" + f)
    return (k, f, case.get("g"), case.get("m"), case.get("q"), gen.show(u))


def _probe_d4():
    x = X.Symbol("x")
    v = X.atan(X.cot(x))
    return "atan(cot(x)) is 1/x" if struct(v) == struct(1 / x) else None


def _probe_d6():
    x = X.Symbol("x")
    v = X.asin(X.sin(x))
    return "asin(sin(x)) is x for every x" if struct(v) == struct(x) else None


KNOWN = {"D4": _probe_d4, "D6": _probe_d6}


def shrink(case, fails):
    if "u" not in case:
        return case
    return dict(case, u=gen.shrink(gen.tup(case["u"]), lambda s: fails(dict(case, u=s))))
