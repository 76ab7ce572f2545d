"""Independent numeric oracle.

Two evaluators over one numeric "field" interface:
  * den(recipe, env, F): what a recipe (plain tuples, see gen.py) denotes,
  * val(expr, env, F):   what a simpy expression tree denotes.

Both use textbook real semantics: logarithms of positive numbers, non-integer powers of
positive numbers, inverse sine/cosine on [-1, 1], no division by zero.  Anything else is
`Undef` and the sample point is not used.  No simpy operation is called while evaluating.
"""
import math
from fractions import Fraction

from .load import mp

INF = float("inf")


class Undef(Exception):
    """the value is not a real number at this point (or too close to a singularity to say)"""


class Near(Undef):
    """so close to a singularity that rounding decides; never evidence of anything"""


class Foreign(Exception):
    """an expression tree contains something that is not an expression"""


class FloatField:
    name = "float"
    eps = 1e-7
    pi = math.pi
    e = math.e

    @staticmethod
    def rat(q):
        try:
            return q.numerator / q.denominator
        except OverflowError:
            raise Undef("overflow")

    @staticmethod
    def flt(f):
        return f

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tan = staticmethod(math.tan)
    asin = staticmethod(math.asin)
    acos = staticmethod(math.acos)
    atan = staticmethod(math.atan)
    log = staticmethod(math.log)

    @staticmethod
    def powr(b, x):
        try:
            return b**x
        except OverflowError:
            raise Undef("overflow")
        except ZeroDivisionError:
            raise Undef("0**neg")

    @staticmethod
    def powi(b, n):
        try:
            return float(b) ** n
        except OverflowError:
            raise Undef("overflow")
        except ZeroDivisionError:
            raise Undef("0**neg")

    @staticmethod
    def check(v):
        if v != v or v == INF or v == -INF or abs(v) > 1e150:
            raise Undef("overflow")
        return v


class MpField:
    name = "mp"
    eps = mp.mpf(10) ** -20

    @property
    def pi(self):
        return +mp.pi

    @property
    def e(self):
        return +mp.e

    @staticmethod
    def rat(q):
        return mp.mpf(q.numerator) / q.denominator

    @staticmethod
    def flt(f):
        return mp.mpf(f)

    sin = staticmethod(mp.sin)
    cos = staticmethod(mp.cos)
    tan = staticmethod(mp.tan)
    asin = staticmethod(mp.asin)
    acos = staticmethod(mp.acos)
    atan = staticmethod(mp.atan)
    log = staticmethod(mp.log)

    @staticmethod
    def powr(b, x):
        return mp.power(b, x)

    @staticmethod
    def powi(b, n):
        return b**n

    @staticmethod
    def check(v):
        if not mp.isfinite(v) or abs(v) > mp.mpf(10) ** 400:
            raise Undef("overflow")
        return v


class NudgedField(MpField):
    """floating-point literals moved by a relative 1e-12: shows how ill-conditioned a value is"""

    @staticmethod
    def flt(f):
        return mp.mpf(f) * (1 + mp.mpf("1e-12"))


FLOAT = FloatField()
MP = MpField()
NUDGED = NudgedField()


def _reciprocal(v, F):
    if abs(v) < F.eps:
        raise Near("division by zero")
    return 1 / v


def power(b, x, F, int_exponent=None):
    """b**x, reals only. int_exponent: the exact integer exponent when it is known to be one."""
    if int_exponent is not None:
        n = int_exponent
        if n == 0:
            if abs(b) < F.eps:
                raise Near("0**0")
            return F.rat(Fraction(1))
        if n < 0 and abs(b) < F.eps:
            raise Near("0**negative")
        if abs(n) > 4000:
            raise Undef("huge exponent")
        return F.check(F.powi(b, n))
    if b > F.eps:
        if abs(x) > 5000:
            raise Undef("huge exponent")
        return F.check(F.powr(b, x))
    if b < -F.eps:
        r = int(round(float(x))) if abs(x) < 1e6 else None
        if r is not None and abs(x - r) < F.eps * 1e-3:
            return F.check(F.powi(b, r))
    if b >= -F.eps:
        raise Near("fractional power of zero")
    raise Undef("fractional power of a negative number")


def trig(name, v, F):
    if name == "sin":
        return F.sin(v)
    if name == "cos":
        return F.cos(v)
    if name == "tan":
        c = F.cos(v)
        return F.sin(v) * _reciprocal(c, F)
    if name == "sec":
        return _reciprocal(F.cos(v), F)
    if name == "csc":
        return _reciprocal(F.sin(v), F)
    if name == "cot":
        return F.cos(v) * _reciprocal(F.sin(v), F)
    if name == "asin":
        if abs(v) > 1 - F.eps:
            if abs(v) > 1 + F.eps:
                raise Undef("asin out of range")
            v = _snap1(v, F)
        return F.asin(v)
    if name == "acos":
        if abs(v) > 1 - F.eps:
            if abs(v) > 1 + F.eps:
                raise Undef("acos out of range")
            v = _snap1(v, F)
        return F.acos(v)
    if name == "atan":
        return F.atan(v)
    raise Foreign("unknown function " + name)


def _snap1(v, F):
    # exactly +-1 is in the domain; something merely close to 1 is too close to a singularity to use
    if v == 1 or v == -1:
        return v
    raise Near("asin/acos at the edge of the domain")


def logv(v, F):
    if v < F.eps:
        if v > -F.eps:
            raise Near("log of zero")
        raise Undef("log of a negative number")
    return F.log(v)


# ---------------------------------------------------------------- simpy expressions

_ARITH = {"Sum", "Prod", "Power", "Abs", "log"}


def val(e, env, F):
    """value of a simpy expression; reads only the public fields of the tree"""
    n = type(e).__name__
    if n == "Rat":
        return F.rat(e.value)
    if n == "Symbol":
        try:
            return env[e.name]
        except KeyError:
            raise Foreign("unbound symbol " + e.name)
    if n == "Sum":
        s = F.rat(Fraction(0))
        for t in e.terms:
            s = s + val(t, env, F)
        return F.check(s)
    if n == "Prod":
        s = F.rat(Fraction(1))
        for t in e.terms:
            s = s * val(t, env, F)
        return F.check(s)
    if n == "Power":
        b = val(e.base, env, F)
        x = e.exponent
        if type(x).__name__ == "Rat" and x.value.denominator == 1:
            return power(b, None, F, int(x.value))
        return power(b, val(x, env, F), F)
    if n in ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan"):
        return trig(n, val(e.inner, env, F), F)
    if n == "log":
        v = logv(val(e.inner, env, F), F)
        if type(e.base).__name__ == "E":
            return v
        return v * _reciprocal(logv(val(e.base, env, F), F), F)
    if n == "Abs":
        return abs(val(e.inner, env, F))
    if n == "Pi":
        return F.pi
    if n == "E":
        return F.e
    if n == "Float":
        if e.value != e.value or abs(e.value) == INF:
            raise Undef("nan/inf")
        return F.flt(e.value)
    if n in ("Infinity", "NegInfinity", "NaN"):
        raise Undef(n)
    raise Foreign("not an expression: %r (%s)" % (e, n))


def rounding(e, env):
    """to first order, how far a double precision evaluation of the tree may be off at env (a dict of Fractions)"""
    U = mp.mpf(2) ** -52
    with mp.workdps(40):
        em = {k: mp.mpf(v.numerator) / v.denominator for k, v in env.items()}

        def go(e):
            n = type(e).__name__
            if n in ("Rat", "Symbol", "Pi", "E", "Float"):
                v = val(e, em, MP)
                return v, abs(v) * U
            if n in ("Sum", "Prod"):
                ps = [go(t) for t in e.terms]
                if n == "Sum":
                    v = MP.check(sum(p[0] for p in ps))
                    return v, sum(p[1] + abs(p[0]) * U for p in ps)
                v = mp.mpf(1)
                for p in ps:
                    v = MP.check(v * p[0])
                err = abs(v) * U * len(ps)
                for i, p in enumerate(ps):
                    o = p[1]
                    for j, q in enumerate(ps):
                        if i != j:
                            o = o * (abs(q[0]) + q[1])
                    err += o
                return v, err
            if n == "Power":
                x = e.exponent
                if type(x).__name__ == "Rat" and x.value.denominator == 1:
                    f = lambda b: power(b, None, MP, int(x.value))
                    ps = [go(e.base)]
                else:
                    f = lambda b, x: power(b, x, MP)
                    ps = [go(e.base), go(x)]
            elif n == "log":
                # log(v, b) = ln v / ln b
                f = lambda v, b: logv(v, MP) * _reciprocal(logv(b, MP), MP)
                ps = [go(e.inner), go(e.base)]
            elif n == "Abs":
                f, ps = abs, [go(e.inner)]
            else:
                f, ps = (lambda v: trig(n, v, MP)), [go(e.inner)]
            v = f(*[p[0] for p in ps])
            err = abs(v) * U
            for i, p in enumerate(ps):
                for sign in (1, -1):
                    a = [q[0] for q in ps]
                    a[i] += sign * p[1]
                    err += abs(f(*a) - v)
            return v, err

        return go(e)[1]


# ---------------------------------------------------------------- recipes

FUNCS = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan")


def den(r, env, F):
    """value denoted by a recipe (see gen.py), reals only"""
    op = r[0]
    if op == "n":
        return F.rat(Fraction(r[1], r[2]))
    if op == "v":
        return env[r[1]]
    if op == "f":
        return F.flt(r[1])
    if op == "pi":
        return F.pi
    if op == "e":
        return F.e
    if op == "+":
        s = F.rat(Fraction(0))
        for t in r[1:]:
            s = s + den(t, env, F)
        return F.check(s)
    if op == "*":
        s = F.rat(Fraction(1))
        for t in r[1:]:
            s = s * den(t, env, F)
        return F.check(s)
    if op == "-":
        return F.check(den(r[1], env, F) - den(r[2], env, F))
    if op == "neg":
        return -den(r[1], env, F)
    if op == "/":
        return F.check(den(r[1], env, F) * _reciprocal(den(r[2], env, F), F))
    if op == "^":
        b = den(r[1], env, F)
        if r[2][0] == "n" and r[2][2] == 1:
            return power(b, None, F, r[2][1])
        return power(b, den(r[2], env, F), F)
    if op == "sqrt":
        return power(den(r[1], env, F), F.rat(Fraction(1, 2)), F)
    if op == "abs":
        return abs(den(r[1], env, F))
    if op == "ln":
        return logv(den(r[1], env, F), F)
    if op == "log":
        return logv(den(r[1], env, F), F) * _reciprocal(logv(den(r[2], env, F), F), F)
    if op in FUNCS:
        return trig(op, den(r[1], env, F), F)
    raise ValueError(op)


# ---------------------------------------------------------------- comparison


def envf(env):
    return {k: v.numerator / v.denominator for k, v in env.items()}


def envm(env):
    return {k: mp.mpf(v.numerator) / v.denominator for k, v in env.items()}


class Verdict:
    """outcome of comparing two denotations at one point"""

    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b


def compare(fa, fb, env, inexact=False):
    """fa, fb: functions (env, F) -> value.

    kinds: 'eq', 'ne', 'undef' (fa undefined), 'lost' (fa defined, fb not), 'ambiguous'.
    A disagreement in double precision is only believed after 40- and 80-digit evaluation agree on it.
    """
    ef = envf(env)
    tol = 1e-6 if inexact else 1e-9
    try:
        a = fa(ef, FLOAT)
        b = fb(ef, FLOAT)
        if abs(a - b) <= tol * (1 + abs(a)):
            return Verdict("eq", a, b)
    except (Undef, OverflowError, ZeroDivisionError, ValueError):
        pass
    vals = []
    for dps in (40, 80):
        with mp.workdps(dps):
            em = envm(env)
            try:
                a = fa(em, MP)
            except Undef:
                return Verdict("undef")
            try:
                b = fb(em, MP)
            except Near:
                return Verdict("ambiguous", a, None)
            except Undef:
                vals.append((a, None))
                continue
            vals.append((a, b))
    (a1, b1), (a2, b2) = vals
    if b1 is None or b2 is None:
        return Verdict("lost" if b1 is None and b2 is None else "ambiguous", a2, None)
    with mp.workdps(80):
        scale = 1 + abs(a2) + abs(b2)
        if abs(a1 - a2) > mp.mpf("1e-18") * scale or abs(b1 - b2) > mp.mpf("1e-18") * scale:
            return Verdict("ambiguous", a2, b2)
        mtol = mp.mpf("1e-6") if inexact else mp.mpf("1e-14")
        if abs(a2 - b2) <= mtol * scale:
            return Verdict("eq", a2, b2)
        if inexact:
            # rounding of float literals can be amplified: only a well-conditioned value decides
            try:
                em = envm(env)
                if max(abs(fa(em, NUDGED) - a2), abs(fb(em, NUDGED) - b2)) > mp.mpf("1e-9") * scale:
                    return Verdict("ambiguous", a2, b2)
                # and so can the rounding of every step: computed with few digits the values must stay where they are
                for dps, near in ((10, "1e-6"), (6, "1e-2")):
                    with mp.workdps(dps):
                        em = envm(env)
                        a3, b3 = fa(em, MP), fb(em, MP)
                    if max(abs(a3 - a2), abs(b3 - b2)) > mp.mpf(near) * scale:
                        return Verdict("ambiguous", a2, b2)
            except (Undef, ArithmeticError, ValueError):
                return Verdict("ambiguous", a2, b2)
        return Verdict("ne", a2, b2)


# ---------------------------------------------------------------- derivatives (forward mode)


class Dual:
    """a + b*h with h*h = 0; order and abs follow the real part"""

    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __add__(self, o):
        if isinstance(o, Dual):
            return Dual(self.a + o.a, self.b + o.b)
        return Dual(self.a + o, self.b)

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __sub__(self, o):
        if isinstance(o, Dual):
            return Dual(self.a - o.a, self.b - o.b)
        return Dual(self.a - o, self.b)

    def __rsub__(self, o):
        return Dual(o - self.a, -self.b)

    def __mul__(self, o):
        if isinstance(o, Dual):
            return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
        return Dual(self.a * o, self.b * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return Dual(self.a / o.a, (self.b * o.a - self.a * o.b) / (o.a * o.a))
        return Dual(self.a / o, self.b / o)

    def __rtruediv__(self, o):
        return Dual(o / self.a, -o * self.b / (self.a * self.a))

    def __abs__(self):
        if self.a == 0:
            raise Undef("abs at 0")
        return self if self.a > 0 else -self

    def _v(self, o):
        return o.a if isinstance(o, Dual) else o

    def __lt__(self, o):
        return self.a < self._v(o)

    def __gt__(self, o):
        return self.a > self._v(o)

    def __le__(self, o):
        return self.a <= self._v(o)

    def __ge__(self, o):
        return self.a >= self._v(o)

    def __eq__(self, o):
        return self.a == self._v(o)

    def __float__(self):
        return float(self.a)


class DualField:
    def __init__(self, F):
        self.F = F
        self.eps = F.eps
        self.name = "dual-" + F.name

    @property
    def pi(self):
        return self.F.pi

    @property
    def e(self):
        return self.F.e

    def rat(self, q):
        return self.F.rat(q)

    def flt(self, f):
        return self.F.flt(f)

    def _f(self, v, f, df):
        if isinstance(v, Dual):
            return Dual(f(v.a), v.b * df(v.a))
        return f(v)

    def sin(self, v):
        return self._f(v, self.F.sin, self.F.cos)

    def cos(self, v):
        return self._f(v, self.F.cos, lambda t: -self.F.sin(t))

    def asin(self, v):
        return self._f(v, self.F.asin, lambda t: 1 / self._sq(1 - t * t))

    def acos(self, v):
        return self._f(v, self.F.acos, lambda t: -1 / self._sq(1 - t * t))

    def _sq(self, v):
        if not v > 0:
            raise Undef("edge of asin/acos")
        return self.F.powr(v, self.F.rat(Fraction(1, 2)))

    def atan(self, v):
        return self._f(v, self.F.atan, lambda t: 1 / (1 + t * t))

    def log(self, v):
        return self._f(v, self.F.log, lambda t: 1 / t)

    def powr(self, b, x):
        F = self.F
        bd, xd = isinstance(b, Dual), isinstance(x, Dual)
        if not bd and not xd:
            return F.powr(b, x)
        ba = b.a if bd else b
        xa = x.a if xd else x
        v = F.powr(ba, xa)
        d = 0
        if bd:
            d = d + b.b * xa * v / ba
        if xd:
            d = d + x.b * v * F.log(ba)
        return Dual(v, d)

    def powi(self, b, n):
        F = self.F
        if not isinstance(b, Dual):
            return F.powi(b, n)
        if n == 0:
            return Dual(F.rat(Fraction(1)), b.b * 0)
        v = F.powi(b.a, n)
        if n == 1:
            return b
        return Dual(v, b.b * n * F.powi(b.a, n - 1))

    def check(self, v):
        if isinstance(v, Dual):
            self.F.check(v.a)
            self.F.check(v.b)
            return v
        return self.F.check(v)


def derivative(fn, var):
    """turn an evaluator (env, F) -> value into one for its partial derivative with respect to var"""

    def d(env, F):
        e2 = dict(env)
        one = F.rat(Fraction(1))
        e2[var] = Dual(env[var], one) if var in env else None
        v = fn(e2, DualField(F))
        return v.b if isinstance(v, Dual) else F.rat(Fraction(0))

    return d


# ---------------------------------------------------------------- complex evaluation, for points a real evaluation loses


def _cpower(b, x, F, int_exponent=None):
    if int_exponent is not None:
        if abs(b) < F.eps and int_exponent <= 0:
            raise Near("0**negative")
        return b**int_exponent
    if abs(b) < F.eps:
        raise Near("power of zero")
    return mp.exp(x * mp.log(b))


def cval(e, env, var):
    """(value, derivative with respect to var) of an expression tree over the complex numbers.
    |u| is differentiated as a real function, so u must be real there."""
    n = type(e).__name__
    if n in ("Rat",):
        return mp.mpf(e.value.numerator) / e.value.denominator, mp.mpf(0)
    if n == "Float":
        return mp.mpf(e.value), mp.mpf(0)
    if n == "Pi":
        return +mp.pi, mp.mpf(0)
    if n == "E":
        return +mp.e, mp.mpf(0)
    if n == "Symbol":
        if e.name not in env:
            raise Foreign("unbound symbol " + e.name)
        return env[e.name], mp.mpf(1 if e.name == var else 0)
    if n == "Sum":
        vs = [cval(t, env, var) for t in e.terms]
        return sum(v for v, _ in vs), sum(d for _, d in vs)
    if n == "Prod":
        v, d = mp.mpf(1), mp.mpf(0)
        for t in e.terms:
            tv, td = cval(t, env, var)
            v, d = v * tv, d * tv + v * td
        return v, d
    if n == "Power":
        b, bd = cval(e.base, env, var)
        x, xd = cval(e.exponent, env, var)
        k = int(e.exponent.value) if type(e.exponent).__name__ == "Rat" and e.exponent.value.denominator == 1 else None
        v = _cpower(b, x, MP, k)
        d = 0
        if bd != 0:
            d += bd * x * _cpower(b, x - 1, MP, k - 1 if k is not None else None)
        if xd != 0:
            d += xd * v * mp.log(b)
        return v, d
    if n == "log":
        v, d = cval(e.inner, env, var)
        b, bd = cval(e.base, env, var)
        if abs(v) < MP.eps or bd != 0:
            raise Near("log")
        lb = mp.log(b)
        return mp.log(v) / lb, d / v / lb
    if n == "Abs":
        v, d = cval(e.inner, env, var)
        v = mp.mpmathify(v)
        if abs(mp.im(v)) > mp.mpf(10) ** -30 or abs(v) < MP.eps:
            raise Undef("absolute value of a complex number")
        s = 1 if mp.re(v) > 0 else -1
        return s * v, s * d
    if n in FUNCS:
        v, d = cval(e.inner, env, var)
        if n in ("tan", "sec") and abs(mp.cos(v)) < MP.eps or n in ("csc", "cot") and abs(mp.sin(v)) < MP.eps:
            raise Near("pole")
        if n in ("asin", "acos") and abs(1 - v * v) < MP.eps or n == "atan" and abs(1 + v * v) < MP.eps:
            raise Near("branch point")
        f = getattr(mp, n)(v)
        g = {
            "sin": lambda: mp.cos(v), "cos": lambda: -mp.sin(v), "tan": lambda: mp.sec(v) ** 2,
            "sec": lambda: mp.sec(v) * mp.tan(v), "csc": lambda: -mp.csc(v) * mp.cot(v), "cot": lambda: -mp.csc(v) ** 2,
            "asin": lambda: 1 / mp.sqrt(1 - v * v), "acos": lambda: -1 / mp.sqrt(1 - v * v), "atan": lambda: 1 / (1 + v * v),
        }[n]()
        return f, g * d
    raise Undef(n)


def complex_compare(f, e, env, var="x", inexact=False):
    """is the complex derivative of the expression e with respect to var the real value f(env)?
    eq / branch (the real part is right: a logarithm was split up, which moves it by 2*pi*i) / ne / ambiguous"""
    res = []
    for dps in (40, 80):
        with mp.workdps(dps):
            em = envm(env)
            try:
                a = f(em, MP)
                _, d = cval(e, em, var)
            except (Undef, Foreign, ArithmeticError, ValueError):
                return "ambiguous"
            res.append((a, d))
    with mp.workdps(80):
        (a1, d1), (a2, d2) = res
        scale = 1 + abs(a2) + abs(d2)
        if abs(a1 - a2) > mp.mpf("1e-18") * scale or abs(d1 - d2) > mp.mpf("1e-18") * scale:
            return "ambiguous"
        if abs(a2 - d2) <= mp.mpf("1e-6" if inexact else "1e-14") * scale:
            return "eq"
        if inexact:
            return "ambiguous"
        return "branch" if abs(a2 - mp.re(d2)) <= mp.mpf("1e-14") * scale else "ne"
