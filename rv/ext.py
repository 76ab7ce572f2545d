"""Extended real arithmetic for the oracle: exact fractions, floats for irrational values, the two infinities, nan, and a zero
that came out of an infinity (1/inf), which has no sign."""
import math
from fractions import Fraction

INF = math.inf
NAN = math.nan


class Unclear(Exception):
    """not settled by extended arithmetic (the sign of 1/(1/inf), a fractional power of a negative number, ...)"""


class _Tiny:
    def __repr__(self):
        return "0 (from an infinity)"


TINY = _Tiny()


def nan(a):
    return isinstance(a, float) and a != a


def infinite(a):
    return isinstance(a, float) and abs(a) == INF


def sign(a):
    return 0 if a is TINY else (a > 0) - (a < 0)


def norm(v):
    if isinstance(v, float) and v != 0 and abs(v) < 1e-9 or isinstance(v, float) and v == 0:
        raise Unclear  # an irrational value that may be zero
    if isinstance(v, float) and abs(v) > 1e200 and not infinite(v):
        raise Unclear
    if isinstance(v, Fraction) and v.numerator.bit_length() + v.denominator.bit_length() > 600:
        raise Unclear
    return v


def add(a, b):
    if nan(a) or nan(b):
        return NAN
    if a is TINY:
        return b
    if b is TINY:
        return a
    if infinite(a) or infinite(b):
        if infinite(a) and infinite(b):
            return a if a == b else NAN
        return a if infinite(a) else b
    return norm(a + b)


def mul(a, b):
    if nan(a) or nan(b):
        return NAN
    if infinite(a) or infinite(b):
        s = sign(a) * sign(b)
        return s * INF if s else NAN
    if a is TINY or b is TINY:
        return TINY
    return norm(a * b)


def neg(a):
    return TINY if a is TINY else -a


def inverse(a):
    if nan(a):
        return NAN
    if a is TINY:
        raise Unclear
    if infinite(a):
        return TINY
    if a == 0:
        return INF
    return norm(1 / a)


def power(a, b):
    if nan(a) or nan(b):
        raise Unclear  # nan^0 and 1^nan
    if infinite(b):
        if a is TINY or not infinite(a) and a <= 0 or infinite(a) and a < 0:
            raise Unclear
        if not infinite(a):
            if abs(a - 1) < 1e-9:
                raise Unclear
            return INF if (a > 1) == (b > 0) else TINY
        return INF if b > 0 else TINY
    if b is TINY:
        raise Unclear
    if b == 0:
        if a is TINY or infinite(a):
            raise Unclear
        return Fraction(1)
    whole = isinstance(b, Fraction) and b.denominator == 1
    if infinite(a):
        if a < 0 and (not whole or abs(b) > 2**53):
            raise Unclear
        if b < 0:
            return TINY
        return INF if a > 0 or b.numerator % 2 == 0 else -INF
    if a is TINY or a == 0:
        if b > 0:
            return a
        return inverse(a)
    if whole:
        if abs(b) > 300:
            raise Unclear
        return norm(a ** int(b))
    if a < 0:
        raise Unclear
    try:
        return norm(float(a) ** float(b))
    except OverflowError:
        raise Unclear


def log(a):
    if nan(a):
        return NAN
    if a is TINY or sign(a) < 0:
        raise Unclear
    if infinite(a):
        return INF
    if a == 0:
        return -INF
    return Fraction(0) if a == 1 else norm(math.log(a))


def atan(a):
    if nan(a):
        return NAN
    return a if a is TINY or a == 0 else norm(math.atan(a))


def absolute(a):
    return a if a is TINY else abs(a)


def tree(e, env):
    """value of a simpy tree in extended arithmetic; env: {name: value}"""
    n = type(e).__name__
    if n == "Rat":
        return e.value
    if n == "Float":
        return TINY if e.value == 0 else float(e.value)
    if n == "Infinity":
        return INF
    if n == "NegInfinity":
        return -INF
    if n == "NaN":
        return NAN
    if n == "Pi":
        return math.pi
    if n == "E":
        return math.e
    if n == "Symbol":
        if e.name not in env:
            raise Unclear
        return env[e.name]
    if n in ("Sum", "Prod"):
        f = add if n == "Sum" else mul
        v = tree(e.terms[0], env)
        for t in e.terms[1:]:
            v = f(v, tree(t, env))
        return v
    if n == "Power":
        return power(tree(e.base, env), tree(e.exponent, env))
    if n == "log" and type(e.base).__name__ == "E":
        return log(tree(e.inner, env))
    if n == "atan":
        return atan(tree(e.inner, env))
    if n in ("sin", "cos"):
        a = tree(e.inner, env)
        if nan(a) or infinite(a) or a is TINY or abs(a) > 1e6:
            raise Unclear
        return Fraction(n == "cos") if a == 0 else norm((math.sin if n == "sin" else math.cos)(a))
    if n == "Abs":
        return absolute(tree(e.inner, env))
    raise Unclear


def same(a, b, exact=True):
    """do two extended values agree?  (a zero is a zero; not exact: 1/inf is a floating point zero and makes the rest floating point)"""
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    if infinite(a) or infinite(b):
        return a == b
    a, b = (0.0 if v is TINY else v for v in (a, b))
    if exact and isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)))


def show(a):
    return str(a)
