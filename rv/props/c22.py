"""C22 polynomials and matrices are handled exactly"""
import random
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation
from . import c07
from simpy import linalg, polynomial as P, transforms as T

import numpy as np

ID = "C22"
RULE = (
    "a case is a polynomial written in some way (read into its coefficient list), any other expression (read or refused), a coefficient list "
    "with zeros (written as an expression and read back), a 2x2 matrix to invert, a quotient of polynomials to divide, or a fraction to split; what the library returns "
    "is compared exactly with the monitor's own arithmetic on lists of Fractions, or by value at sample points when symbols or roots are in the coefficients; "
    "it counts when such a comparison was made; distinct by input"
)
COUNT = {"quick": 25000, "thorough": 200000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 9000, "thorough": 40000}
x = X.Symbol("x")
KINDS = [("read", 4), ("any", 3), ("list", 2), ("matrix", 3), ("divide", 4), ("split", 3)]


# ------------------------------------------------ the monitor's own polynomials: lists of Fractions, lowest first

def strip(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return a


def mul(a, b):
    out = [Fraction(0)] * max(0, len(a) + len(b) - 1)
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            out[i + j] += p * q
    return strip(out)


def add(a, b):
    n = max(len(a), len(b))
    return strip([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def divmod_(a, b):
    a, q = strip(a), []
    while len(a) >= len(b):
        k, c = len(a) - len(b), a[-1] / b[-1]
        q = add(q, [Fraction(0)] * k + [c])
        a = add(a, [Fraction(0)] * k + [-c * t for t in b])
    return q, a


def own(e):
    """the coefficients of an expression that is a polynomial in x with rational coefficients, however it is written; else ValueError"""
    n = type(e).__name__
    if n == "Rat":
        return strip([e.value])
    if n == "Symbol" and e.name == "x":
        return [Fraction(0), Fraction(1)]
    if n == "Sum":
        out = []
        for t in e.terms:
            out = add(out, own(t))
        return out
    if n == "Prod":
        out = [Fraction(1)]
        for t in e.terms:
            out = mul(out, own(t))
        return out
    if n == "Power" and type(e.exponent).__name__ == "Rat" and e.exponent.value.denominator == 1 and 0 <= e.exponent.value <= 200:
        b, out = own(e.base), [Fraction(1)]
        for _ in range(int(e.exponent.value)):
            out = mul(out, b)
        return out
    raise ValueError(n)


def rlist(rng, lo, hi, zero=0.25):
    out = [Fraction(0) if rng.random() < zero else gen_frac(rng) for _ in range(rng.randint(lo, hi) + 1)]
    while out[-1] == 0:
        out[-1] = gen_frac(rng)
    return out


def gen_frac(rng):
    return Fraction(rng.choice([-1, 1]) * rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12, 30]), rng.choice([1, 1, 1, 1, 2, 3, 4, 7]))


def write(rng, c):
    """a recipe for a polynomial"""
    ts = []
    for i, v in enumerate(c):
        if v:
            m = gen.V("x") if i == 1 else ("^", gen.V("x"), gen.N(i))
            k = gen.N(v.numerator, v.denominator)
            ts.append(k if i == 0 else m if v == 1 and rng.random() < 0.8 else ("*", k, m))
    rng.shuffle(ts)
    return ts[0] if len(ts) == 1 else ("+",) + tuple(ts) if ts else gen.N(0)


def make(rng, i, tier):
    k = gen.choose(rng, KINDS)
    case = {"k": k, "s": rng.getrandbits(40)}
    if k == "read":
        while True:
            r = c07.rpoly(rng, rng.choice([1, 2, 2, 3]), False)
            r = only_x(r)
            try:
                c07.pden(r)
            except c07.Big:
                continue
            if gen.tame(r) and gen.size(r) < 50:
                break
        case["r"] = r
    elif k == "any":
        c = rng.random()
        if c < 0.5:
            r = gen.recipe(rng, rng.choice(["alg", "rad", "full"]), rng.choice([1, 2, 2, 3]))
        else:
            # nearly polynomials
            t = [rng.choice([("^", gen.V("x"), gen.N(rng.choice([2, 3, -1, 1]), rng.choice([1, 1, 2]))), ("*", rng.choice(["y", "pi", "r2"]), gen.V("x")),
                             ("*", gen.N(3), gen.V("x")), gen.V("y"), ("sqrt", gen.N(2)), ("sin", gen.V("y")), ("sin", gen.V("x")), ("^", gen.V("y"), gen.V("x")),
                             ("^", gen.V("x"), gen.V("y")), gen.N(2, 3), ("^", ("+", gen.V("x"), gen.N(1)), gen.N(rng.choice([1, 2, -1]), rng.choice([1, 2]))),
                             ("*", ("+", gen.V("x"), gen.V("y")), gen.N(2)), ("abs", gen.V("x")), ("pi",)]) for _ in range(rng.randint(1, 4))]
            t = [tuple({"y": gen.V("y"), "pi": ("pi",), "r2": ("sqrt", gen.N(2))}.get(q, q) if isinstance(q, str) and j else q for j, q in enumerate(p))
                 if p[0] == "*" else p for p in t]
            r = t[0] if len(t) == 1 else (rng.choice(["+", "+", "*"]),) + tuple(t)
        case["r"] = r
    elif k == "list":
        c = rlist(rng, 0, 6) + [Fraction(0)] * rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.1:
            c = [Fraction(0)] * rng.randint(1, 4)
        case["c"] = [[v.numerator, v.denominator] for v in c]
    elif k == "matrix":
        if rng.random() < 0.6:
            m = [gen_frac(rng) if rng.random() < 0.8 else Fraction(0) for _ in range(4)]
            if rng.random() < 0.35:  # singular
                f = gen_frac(rng)
                m = m[:2] + [f * m[0], f * m[1]]
                if rng.random() < 0.5:
                    m = [m[0], m[2], m[1], m[3]]
            case["m"] = [gen.N(v.numerator, v.denominator) for v in m]
        else:
            pool = [gen.V("a"), gen.V("b"), gen.N(2), ("sqrt", gen.N(2)), ("+", gen.V("a"), gen.N(1)), ("pi",), gen.N(0), gen.N(-1), ("^", gen.V("a"), gen.N(2)), ("neg", gen.V("b"))]
            m = [rng.choice(pool) for _ in range(4)]
            if rng.random() < 0.3:
                m = [m[0], m[1], m[0], m[1]] if rng.random() < 0.5 else [m[0], m[0], m[1], m[1]]
            case["m"] = m
    elif k == "divide":
        d = rlist(rng, 1, rng.choice([1, 2, 2, 3, 4]), rng.choice([0.2, 0.6]))
        if rng.random() < 0.35:
            n = add(mul(rlist(rng, 0, 3), d), rlist(rng, 0, len(d) - 2) if rng.random() < 0.5 else [])
        else:
            n = rlist(rng, 0, 7, rng.choice([0.2, 0.6]))
        case["n"], case["d"] = write(rng, n), write(rng, d)
    else:
        ls = [[gen_frac(rng) if rng.random() < 0.85 else Fraction(0), gen_frac(rng)] for _ in range(2)]
        if rng.random() < 0.12:
            f = gen_frac(rng)
            ls[1] = [f * t for t in ls[0]]
        case["n"] = write(rng, strip(rlist(rng, 0, rng.choice([0, 1, 1, 1, 1, 2, 3]))))
        if rng.random() < 0.7:
            case["d"] = ("*", write(rng, ls[0]), write(rng, ls[1]))
        else:
            case["d"] = write(rng, mul(*ls))
    return case


def only_x(r):
    if r[0] == "v":
        return gen.V("x")
    return gen.with_kids(r, [only_x(k) for k in gen.kids(r)])


def run(case, obs):
    return globals()["run_" + case["k"]](case, obs)


def frac_list(a, what):
    out = []
    for c in list(a):
        if isinstance(c, (int, Fraction)):
            out.append(Fraction(c))
        elif type(c).__name__ == "Rat":
            out.append(Fraction(c.value))
        else:
            raise Violation("coefficient-type", "%s has the coefficient %r" % (what, c))
    return out


def run_read(case, obs):
    r = gen.tup(case["r"])
    e = build(r, "op", [{"x": Fraction(3, 7)}])
    if e is None or blowup(e) > 300 or tree_size(e) > 150:
        return None
    want = {k[0]: c for k, c in c07.pden(r).items()}
    want = [want.get(i, Fraction(0)) for i in range(max(want, default=0) + 1)]
    what = "the coefficients of %s" % srepr(e)
    s0 = struct(e)
    got = call(what, lambda: P.to_const_polynomial(e, x), AssertionError) if call("is_polynomial(%s)" % srepr(e), lambda: P.is_polynomial(e, x)) else None
    if got is None:
        raise Violation("not-recognised", "%s is a polynomial but is_polynomial() says it is not" % srepr(e))
    if struct(e) != s0:
        raise Violation("mutated", "reading %s changed it" % what)
    if frac_list(got, what) != want:
        raise Violation("coefficients", "%s are given as %s, not %s" % (what, [str(c) for c in got], [str(c) for c in want]))
    back = call("polynomial_to_expr", lambda: P.polynomial_to_expr(got, x))
    try:
        if strip(own(back)) != strip(want):
            raise Violation("round-trip", "polynomial_to_expr of %s gave %s" % ([str(c) for c in got], srepr(back)))
    except ValueError:
        raise Violation("round-trip", "polynomial_to_expr of %s gave %s" % ([str(c) for c in got], srepr(back)))
    obs.add("polynomials_read")
    obs.max("max_degree", len(want) - 1)
    return gen.show(r)


def run_any(case, obs):
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r) | {"x"})
    pts = envs(case["s"], names, 8)
    if not gen.tame(r) or not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    if e is None or blowup(e) > 60 or tree_size(e) > 80:
        return None
    what = "the coefficients of %s" % srepr(e)
    s0 = struct(e)
    ok = call("is_polynomial(%s)" % srepr(e), lambda: P.is_polynomial(e, x))
    if ok is not True and ok is not False:
        raise Violation("not-a-bool", "is_polynomial(%s) is %r" % (srepr(e), ok))
    if struct(e) != s0:
        raise Violation("mutated", "is_polynomial changed " + srepr(e))
    if not ok:
        try:
            c = own(e)
        except ValueError:
            c = None
        if c is not None:
            raise Violation("not-recognised", "%s is a polynomial but is_polynomial() says it is not" % srepr(e))
        try:
            P.to_const_polynomial(e, x)
        except AssertionError:
            obs.add("refused")
            return None
        except Exception as ex:
            raise Violation("raised", "%s: %s" % (what, ex))
        raise Violation("disagree", "is_polynomial(%s) is False but it has coefficients" % srepr(e))
    with assumptions() as A:
        got = list(call(what, lambda: P.to_const_polynomial(e, x)))
    got = [c if isinstance(c, Expr) else X.Rat(c) for c in got]
    for c in got:
        if "x" in names_of(c):
            raise Violation("coefficient-variable", "%s contain the variable: %s" % (what, srepr(c)))

    def poly(env, F):
        s = F.rat(Fraction(0))
        for i, c in enumerate(got):
            v = num.val(c, env, F)
            s = s + (v * num.power(num.val(x, env, F), None, F, i) if i else v)
        return F.check(s)

    n = judge(evaluator(e), poly, pts, obs, A, gen.has_float(r), lambda: "%s are given as %s" % (what, [srepr(c) for c in got]), "coefficients")
    if n < 2:
        return None
    obs.add("other_coefficients")
    return gen.show(r)


def run_list(case, obs):
    c = [Fraction(*v) for v in case["c"]]
    a = np.array([X.Rat(v) for v in c])
    what = "%s" % [str(v) for v in c]
    out = call("rid_ending_zeros", lambda: P.rid_ending_zeros(a))
    if frac_list(out, what) != strip(c):
        raise Violation("zeros", "rid_ending_zeros(%s) is %s" % (what, [str(v) for v in out]))
    if [v.value for v in a] != c:
        raise Violation("mutated", "rid_ending_zeros changed " + what)
    e = call("polynomial_to_expr", lambda: P.polynomial_to_expr(a, x))
    try:
        o = own(e)
    except ValueError:
        o = None
    if o != strip(c):
        raise Violation("to-expression", "polynomial_to_expr(%s) is %s" % (what, srepr(e)))
    back = call("reading back", lambda: P.to_const_polynomial(e, x))
    if frac_list(back, what) != (strip(c) or [0]):
        raise Violation("round-trip", "%s became %s and was read back as %s" % (what, srepr(e), [str(v) for v in back]))
    obs.add("lists")
    return what


def run_matrix(case, obs):
    rs = [gen.tup(r) for r in case["m"]]
    names = sorted(set().union(*[gen.variables(r) for r in rs]))
    pts = envs(case["s"], names, 8)
    m = [build(r, "op", pts) for r in rs]
    a = np.array([m[:2], m[2:]])
    what = "invert(%s)" % [[srepr(v) for v in m[:2]], [srepr(v) for v in m[2:]]]
    out = call(what, lambda: linalg.invert(a))
    if all(type(v).__name__ == "Rat" for v in m):
        p, q, s, t = [v.value for v in m]
        det = p * t - q * s
        if (out is None) != (det == 0):
            raise Violation("singular", "%s is %s but the determinant is %s" % (what, out, det))
        if out is None:
            obs.add("singular_matrices")
            return what
        got = frac_list([out[0, 0], out[0, 1], out[1, 0], out[1, 1]], what)
        if got != [t / det, -q / det, -s / det, p / det]:
            raise Violation("inverse", "%s is %s" % (what, [str(v) for v in got]))
        obs.add("matrices")
        return what
    dets = []
    for env in pts:
        try:
            v = [num.den(r, num.envf(env), num.FLOAT) for r in rs]
            dets.append(v[0] * v[3] - v[1] * v[2])
        except (num.Undef, ArithmeticError, ValueError):
            pass
    if out is None:
        if any(abs(d) > 1e-6 for d in dets):
            raise Violation("singular", "%s is None but the determinant is %s" % (what, dets))
        obs.add("singular_matrices")
        return what
    if not dets or any(abs(d) < 1e-6 for d in dets):
        return None
    n = 0
    for i in (0, 1):
        for j in (0, 1):
            f = lambda env, F: F.check(num.den(rs[2 * i], env, F) * num.val(out[0, j], env, F) + num.den(rs[2 * i + 1], env, F) * num.val(out[1, j], env, F))
            one = lambda env, F: F.rat(Fraction(int(i == j)))
            n += judge(one, f, pts, obs, None, False, lambda: "%s: entry (%d, %d) of the product" % (what, i, j), "inverse")
    obs.add("symbolic_matrices")
    return what if n >= 8 else None


def fraction(case):
    """the quotient as simpy builds it, and its parts"""
    n, d = gen.tup(case["n"]), gen.tup(case["d"])
    pts = [p for p in envs(case["s"], ["x"], 8)]
    q = build(("/", n, d), "op", pts)
    if q is None or type(q).__name__ != "Prod":
        return None
    num_, den_ = call("numerator_denominator", lambda: q.numerator_denominator)
    try:
        return q, own(num_), own(den_), pts
    except ValueError:
        return None


def step(cls, q, what):
    node = T.Node(q, x)
    t = cls()
    ok = call("%s.check(%s)" % (cls.__name__, what), lambda: t.check(node))
    if not ok:
        return None
    call("%s.forward(%s)" % (cls.__name__, what), lambda: t.forward(node))
    if len(node.children) != 1:
        raise Violation("children", "%s of %s made %d sub-problems" % (cls.__name__, what, len(node.children)))
    return node.children[0].expr


def run_divide(case, obs):
    f = fraction(case)
    if f is None:
        return None
    q, a, b, pts = f
    if len(b) < 2:
        return None
    what = srepr(q)
    s0 = struct(q)
    out = step(T.PolynomialDivision, q, what)
    if struct(q) != s0:
        raise Violation("mutated", "dividing changed " + what)
    if out is None:
        if len(a) >= len(b):
            raise Violation("not-divided", "PolynomialDivision does not apply to %s" % what)
        obs.add("already_proper")
        return None
    if len(a) < len(b):
        raise Violation("divided", "PolynomialDivision applies to %s, which is proper" % what)
    wq, wr = divmod_(a, b)
    got, rest = [], []
    for t in out.terms if type(out).__name__ == "Sum" else [out]:
        try:
            got = add(got, own(t))
        except ValueError:
            rest.append(t)
    if got != wq:
        raise Violation("quotient", "%s was divided into %s; the quotient is %s" % (what, srepr(out), [str(c) for c in wq]))
    if bool(rest) != bool(wr):
        raise Violation("remainder", "%s was divided into %s; the remainder is %s" % (what, srepr(out), [str(c) for c in wr]))

    def want(env, F):
        ev = lambda c: sum((F.rat(v) * num.power(num.val(x, env, F), None, F, i) if i else F.rat(v) for i, v in enumerate(c)), F.rat(Fraction(0)))
        return F.check(ev(wr) * num._reciprocal(ev(b), F))

    if rest:
        def value(env, F):
            s = F.rat(Fraction(0))
            for t in rest:
                s = s + num.val(t, env, F)
            return F.check(s)

        judge(want, value, pts, obs, None, False, lambda: "the remainder in %s = %s" % (what, srepr(out)), "remainder")
    obs.add("divisions")
    obs.add("exact_divisions" if not wr else "divisions_with_remainder")
    return what


def run_split(case, obs):
    f = fraction(case)
    if f is None:
        return None
    q, a, b, pts = f
    if len(b) != 3 or not a:
        return None
    disc = b[1] ** 2 - 4 * b[0] * b[2]
    what = srepr(q)
    s0 = struct(q)
    out = step(T.PartialFractions, q, what)
    if struct(q) != s0:
        raise Violation("mutated", "splitting changed " + what)
    if len(a) > 2:
        # not a proper fraction: left to division, or split correctly
        if out is not None:
            judge(evaluator(q), evaluator(out), pts, obs, None, False, lambda: "%s was split into %s" % (what, srepr(out)))
        obs.add("improper_fraction_not_split")
        return what
    if out is None:
        if disc > 0 and gen.tup(case["d"])[0] == "*" and in_factors(q):
            raise Violation("not-split", "PartialFractions does not apply to %s" % what)
        obs.add("not_split")
        return None
    if disc == 0:
        raise Violation("split", "PartialFractions splits %s, whose denominator is a square" % what)
    for t in out.terms if type(out).__name__ == "Sum" else [out]:
        n, d = t.numerator_denominator if type(t).__name__ == "Prod" else (X.Rat(1), 1 / t)
        try:
            n, d = own(n), own(d)
        except ValueError:
            raise Violation("terms", "%s was split into %s" % (what, srepr(out)))
        if len(n) != 1 or len(d) != 2:
            raise Violation("terms", "%s was split into %s" % (what, srepr(out)))
    n = judge(evaluator(q), evaluator(out), pts, obs, None, False, lambda: "%s was split into %s" % (what, srepr(out)))
    obs.add("fractions_split")
    return what if n >= 2 else None


def in_factors(q):
    """the denominator is still a product of two linear factors"""
    d = 0
    for t in q.terms:
        if type(t).__name__ == "Rat" and t.value.denominator != 1:
            return False  # (constants are pulled out before; the denominator has three factors here)
        if type(t).__name__ == "Power" and type(t.exponent).__name__ == "Rat" and t.exponent.value < 0:
            if t.exponent.value != -1:
                return False
            d += 1
    return d == 2


def shrink(case, fails):
    for k in ("r", "n", "d"):
        if k in case:
            case = dict(case, **{k: gen.shrink(gen.tup(case[k]), lambda s: fails(dict(case, **{k: s})))})
    return case


def describe(case):
    if "r" in case:
        return "%s %s" % (case["k"], gen.show(gen.tup(case["r"])))
    if "n" in case:
        return "%s (%s) / (%s)" % (case["k"], gen.show(gen.tup(case["n"])), gen.show(gen.tup(case["d"])))
    if "m" in case:
        return "matrix %s" % [gen.show(gen.tup(r)) for r in case["m"]]
    return "list %s" % case["c"]
