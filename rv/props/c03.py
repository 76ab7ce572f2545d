"""C03 exact arithmetic: rational numbers stay exact rationals, exact input never turns into floats"""
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation
from simpy import simplify  # noqa: F401

ID = "C03"
RULE = (
    "random programs of + - * / ** neg abs // % and comparisons over int, Fraction and Rat operands (small to 400 "
    "digits), mirrored in fractions.Fraction; roots of rationals mirrored by an integer-root oracle; float-free recipes "
    "whose trees, after building and after expand/simplify/diff/subs/factor, are searched for floats; distinct by case"
)
COUNT = {"quick": 12000, "thorough": 150000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 4000, "thorough": 20000}


def _bignum(rng):
    c = rng.random()
    if c < 0.5:
        return rng.randint(-12, 12)
    if c < 0.75:
        return rng.choice([1, -1]) * rng.randint(10**3, 10**9)
    if c < 0.9:
        return rng.choice([1, -1]) * rng.randint(2**52, 2**80)
    return rng.choice([1, -1]) * rng.randint(10**200, 10**400)


def _prog(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        p = _bignum(rng)
        q = rng.choice([1, 1, 1, 2, 3, 4, 6, 7, 10, 97, 2**53 + 1, 10**60 + 7])
        return ["n", p, q, rng.choice(["int", "frac", "rat"])]
    op = rng.choice(["+", "-", "*", "/", "+", "*", "-", "/", "neg", "abs", "pow", "//", "%", "Sum", "Prod"])
    if op in ("neg", "abs"):
        return [op, _prog(rng, depth - 1)]
    if op == "pow":
        return [op, _prog(rng, min(1, depth - 1)), rng.choice([0, 1, 2, 3, 4, -1, -2, -3, 7])]
    if op in ("Sum", "Prod"):
        return [op] + [_prog(rng, depth - 1) for _ in range(rng.choice([2, 3, 4]))]
    return [op, _prog(rng, depth - 1), _prog(rng, depth - 1)]


def make(rng, i, tier):
    k = ("prog", "root", "prog", "tree", "cmp", "root")[i % 6]
    if k == "prog":
        return {"k": k, "p": _prog(rng, rng.choice([1, 2, 2, 3, 3, 4]))}
    if k == "cmp":
        a = [_bignum(rng), rng.choice([1, 1, 2, 3, 7, 2**53 + 1])]
        b = rng.choice([[_bignum(rng), rng.choice([1, 1, 2, 3, 7])], list(a), [a[0] + 1, a[1]], [a[0] * 3, a[1] * 3]])
        return {"k": k, "a": a, "b": b, "form": rng.choice(["rat", "int", "frac"])}
    if k == "root":
        q = rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 7, 10])
        p = rng.choice([1, 1, 1, 1, 2, 3, 5, -1, -1, -2, -3, 7])
        if rng.random() < 0.1:  # the exponent a fraction with a large denominator
            q = rng.choice([97, 1000, 10**6 + 1, 10**12, rng.randint(10**9, 10**18)])
            return {"k": k, "n": rng.choice([1, -1, 1, 1]) * rng.choice([2, 3, 4, 8, 12, 27, 1024, rng.randint(2, 10**6), 10**30 + 1]),
                    "d": rng.choice([1, 1, 2, 3, 8, 10**30]), "p": rng.choice([1, -1, q + 1, q - 1, -q - 1, 2 * q + 1, rng.randint(1, 3 * q)]),
                    "q": q, "how": rng.choice(["**", "Power"])}
        if rng.random() < 0.6:  # a perfect power, or just next to one
            n = abs(_bignum(rng)) ** q + rng.choice([0, 0, 0, 0, 1, -1])
            d = rng.choice([1, 1, 2, 3, 10, 1001, 10**40 + 1]) ** q + rng.choice([0, 0, 0, 1])
        else:
            n, d = abs(_bignum(rng)), rng.choice([1, 1, 2, 3, 8, 12, 27, 10**30])
        if n < 1:
            n = 4
        if max(n.bit_length(), d.bit_length()) * abs(p) > 40000:
            p = 1
        if rng.random() < 0.25:
            n = -n
        return {"k": k, "n": n, "d": d, "p": p, "q": q, "how": rng.choice(["**", "Power", "sqrt"])}
    r = gen.recipe(rng, rng.choice(["alg", "rad", "trig"]), rng.choice([2, 3, 3]))
    return {"k": k, "r": r, "op": rng.choice(["build", "expand", "simplify", "diff", "subs", "factor", "latex"]),
            "style": rng.choice(["op", "ctor", "rat"]), "pt": rng.getrandbits(40)}


class WideField(num.MpField):
    """no magnitude limits: the working precision is chosen per case"""

    eps = mp.mpf(0)

    @staticmethod
    def check(v):
        return v


class Bad(Exception):
    pass


def _oracle(p):
    """exact value by fractions.Fraction; Bad for anything without one"""
    op = p[0]
    if op == "n":
        return Fraction(p[1], p[2])
    if op == "pow":
        v = _oracle(p[1])
        if v == 0 and p[2] <= 0:
            raise Bad
        return v ** p[2]
    a = [_oracle(k) for k in p[1:]]
    if op == "neg":
        return -a[0]
    if op == "abs":
        return abs(a[0])
    if op == "Sum":
        return sum(a, Fraction(0))
    if op == "Prod":
        r = Fraction(1)
        for t in a:
            r *= t
        return r
    if op in ("/", "//", "%") and a[1] == 0:
        raise Bad
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1],
            "//": lambda: Fraction(a[0] // a[1]), "%": lambda: a[0] % a[1]}[op]()


def _leaf(p):
    f = Fraction(p[1], p[2])
    if p[3] == "int" and f.denominator == 1:
        return int(f)
    return Rat(f) if p[3] == "rat" else f


def _prog_run(p, top=True):
    op = p[0]
    if op == "n":
        v = _leaf(p)
        return X.Const(v) if top and not isinstance(v, Expr) else v
    a = [_prog_run(k, False) for k in (p[1:] if op != "pow" else p[1:2])]
    if op == "Sum":
        return X.Sum(a)
    if op == "Prod":
        return X.Prod(a)
    if op in ("//", "%"):  # defined on Rat from the left
        a[0] = Rat(a[0]) if not isinstance(a[0], Expr) else a[0]
    elif not isinstance(a[0], Expr) and (len(a) < 2 or not isinstance(a[1], Expr)):
        a[0] = Rat(Fraction(a[0]))
    if op == "neg":
        return -a[0]
    if op == "abs":
        return abs(a[0])
    if op == "pow":
        return a[0] ** p[2]
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1],
            "//": lambda: a[0] // a[1], "%": lambda: a[0] % a[1]}[op]()


def _show(p):
    if p[0] == "n":
        s = "%s" % Fraction(p[1], p[2])
        return "%s:%s" % (s if len(s) < 40 else s[:18] + ".." + s[-12:], p[3])
    return "(" + " ".join([p[0]] + [_show(k) if isinstance(k, list) else str(k) for k in p[1:]]) + ")"


def _check_rat(e, want, what):
    if type(e).__name__ != "Rat":
        raise Violation("not-rational", "%s gave %s (%s), the exact value is %s"
                        % (what, srepr(e, 120), type(e).__name__, str(want)[:120]))
    if e.value != want or not isinstance(e.value, Fraction):
        raise Violation("inexact", "%s gave %s, the exact value is %s" % (what, str(e.value)[:200], str(want)[:200]))


def iroot(n, k):
    """floor of the k-th root, by bisection on exact integers"""
    if 0 < n.bit_length() <= k:
        return 1
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def run(case, obs):
    k = case["k"]
    if k == "prog":
        p = case["p"]
        try:
            want = _oracle(p)
        except Bad:
            return None
        e = call(_show(p), lambda: _prog_run(p))
        _check_rat(e, want, _show(p))
        obs.add("programs")
        return ("prog", _show(p))
    if k == "cmp":
        fa, fb = Fraction(*case["a"]), Fraction(*case["b"])
        a = Rat(fa)
        b = Rat(fb) if case["form"] == "rat" or (case["form"] == "int" and fb.denominator != 1) else (
            int(fb) if case["form"] == "int" else fb)
        for name, f in (("==", lambda u, v: u == v), ("!=", lambda u, v: u != v), ("<", lambda u, v: u < v),
                        ("<=", lambda u, v: u <= v), (">", lambda u, v: u > v), (">=", lambda u, v: u >= v)):
            got = call("%s %s %s" % (a, name, b), lambda: f(a, b))
            if bool(got) != f(fa, fb):
                raise Violation("comparison", "Rat(%s) %s %r is %s" % (fa, name, b, got))
            got = call("%s %s %s" % (b, name, a), lambda: f(b, a))
            if bool(got) != f(fb, fa):
                raise Violation("comparison", "%r %s Rat(%s) is %s" % (b, name, fa, got))
        obs.add("comparisons", 12)
        return ("cmp", str(fa), str(fb), case["form"])
    if k == "root":
        n, d, p, q = case["n"], case["d"], case["p"], case["q"]
        v, x = Fraction(n, d), Fraction(p, q)
        if case["how"] == "sqrt":
            x = Fraction(1, 2)
        what = "(%s)**(%s)" % (str(v)[:80], x)
        if case["how"] == "sqrt":
            e = call("sqrt(%s)" % str(v)[:80], lambda: X.sqrt(Rat(v)))
        elif case["how"] == "**":
            e = call(what, lambda: Rat(v) ** Rat(x))
        else:
            e = call(what, lambda: X.Power(v, x))
        kq = x.denominator
        if v < 0 and kq > 1:
            return _negative_root(v, x, e, what, case, obs)
        rn, rd = (v.numerator, v.denominator) if kq == 1 else (iroot(v.numerator, kq), iroot(v.denominator, kq))
        if rn**kq == v.numerator and rd**kq == v.denominator:
            want = Fraction(rn, rd) ** x.numerator
            _check_rat(e, want, what)
            obs.add("exact_roots")
        else:
            if type(e).__name__ == "Rat":
                raise Violation("irrational-as-rational", "%s is irrational but gave %s" % (what, str(e.value)[:200]))
            for t in nodes(e):
                if type(t).__name__ == "Float":
                    raise Violation("float", "%s gave %s" % (what, srepr(e, 200)))
            digits = max(n.bit_length(), d.bit_length()) * _size(x) // 3 + 60
            with mp.workdps(digits):
                a = mp.power(mp.mpf(v.numerator) / v.denominator, mp.mpf(x.numerator) / x.denominator)
                b = num.val(e, {}, WideField())
                if abs(a - b) > abs(a) * mp.mpf(10) ** (-digits + 25):
                    raise Violation("inexact", "%s gave %s" % (what, srepr(e, 200)))
            obs.add("irrational_roots")
        return ("root", str(v), str(x), case["how"])
    # exact input, exact output
    r = gen.tup(case["r"])
    names = sorted(gen.variables(r))
    pts = envs(case["pt"], names, 6)
    if not defined_somewhere(r, pts):
        return None
    e = build(r, case["style"], pts)
    if e is None:
        return None
    op = case["op"]
    if "pi" in gen.ops(r) or "e" in gen.ops(r):
        op = "build" if op == "latex" else op

    def go():
        if op == "expand":
            return e.expand() if e.expandable() else e
        if op == "simplify":
            return e.simplify()
        if op == "diff":
            return e.diff(X.Symbol("x"))
        if op == "factor":
            return e.factor() if isinstance(e, X.Sum) else e
        if op == "subs":
            return e.subs({"x": Fraction(3, 7), "y": X.Symbol("x") + 2})
        return e

    if op != "build" and tree_size(e) > 400:
        return None
    try:
        f = go()
    except Exception:
        obs.add("operation_raised")  # not this property's business
        return None
    for t in nodes(f):
        tn = type(t).__name__
        if tn == "Float":
            try:
                if op == "subs":
                    r2 = _subst(r, {"x": gen.N(3, 7), "y": ("+", gen.V("x"), gen.N(2))})
                    if not defined_somewhere(r2, pts):
                        return None
                if op == "diff":
                    if all(_undef(num.derivative(denoter(r), "x"), env) for env in pts):
                        return None
            except Exception:
                return None
            raise Violation("float", "%s after %s holds the float %r: %s" % (gen.show(r), op, t.value, srepr(f)))
    obs.add("trees_searched")
    return ("tree", gen.show(r), op, case["style"])


def _size(x):
    return abs(x.numerator) if x.denominator < 90 else int(abs(x)) + 1


def _negative_root(v, x, e, what, case, obs):
    """an odd root of a negative number is its real root, an even root of one has no real value"""
    digits = max(v.numerator.bit_length(), v.denominator.bit_length()) * _size(x) // 3 + 60
    with mp.workdps(digits):
        try:
            got = num.val(e, {}, WideField())
        except num.Undef:
            got = None
        if x.denominator % 2 == 0:
            if got is not None:
                raise Violation("imaginary-as-real", "%s has no real value but gave %s" % (what, srepr(e, 200)))
            obs.add("even_roots_of_negatives")
        else:
            want = mp.power(-mp.mpf(v.numerator) / v.denominator, mp.mpf(x.numerator) / x.denominator)
            if x.numerator % 2:
                want = -want
            elif got is not None and abs(got + want) <= abs(want) * mp.mpf(10) ** (-digits + 25):
                obs.add("listed_finding_D5")  # the sign of an even power of an odd root
                want = -want
            if got is None or abs(got - want) > abs(want) * mp.mpf(10) ** (-digits + 25):
                raise Violation("odd-root", "%s gave %s" % (what, srepr(e, 200)))
            obs.add("odd_roots_of_negatives")
    for t in nodes(e):
        if type(t).__name__ == "Float":
            raise Violation("float", "%s gave %s" % (what, srepr(e, 200)))
    return ("negroot", str(v), str(x), case["how"])


def _probe_d5():
    v = Rat(-8) ** Rat(2, 3)
    return "Rat(-8) ** Rat(2, 3) is -4" if v == -4 else None


KNOWN = {"D5": _probe_d5}


def _undef(fn, env):
    try:
        e2 = {"x": env.get("x", Fraction(3, 7)), **env}
        fn(num.envf(e2), num.FLOAT)
        return False
    except (num.Undef, ArithmeticError, ValueError):
        return True


def _subst(r, m):
    if r[0] == "v":
        return m.get(r[1], r)
    if r[0] in ("n", "f", "pi", "e"):
        return r
    return (r[0],) + tuple(_subst(k, m) for k in r[1:])


def shrink(case, fails):
    if case["k"] != "tree":
        if case["k"] == "prog":
            p = case["p"]
            changed = True
            while changed:
                changed = False
                for sub in [k for k in p[1:] if isinstance(k, list)]:
                    if fails(dict(case, p=sub)):
                        p, changed = sub, True
                        break
            return dict(case, p=p)
        return case
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))
