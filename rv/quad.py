"""Numerical integration for the oracle: composite Gauss-Legendre, believed only when refining it changes nothing."""
import math

_X = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717]
_W = [0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881]


def gauss(f, a, b, panels):
    h = (b - a) / panels
    s = 0.0
    for i in range(panels):
        m = a + (i + 0.5) * h
        for x, w in zip(_X, _W):
            d = 0.5 * h * x
            s += w * (f(m - d) + f(m + d))
    return s * 0.5 * h


def _simple(f, a, b, tol):
    last = None
    for panels in (3, 7, 16, 37):
        v = gauss(f, a, b, panels)
        if v != v or math.isinf(v) or abs(v) > 1e12:
            return None
        if last is not None and abs(v - last) <= tol * (1 + abs(v)):
            return v
        last = v
    return None


def integral(f, a, b, tol=1e-10):
    """the integral of f over [a, b], or None when it cannot be told reliably (a pole, a jump, a kink, no value).
    A pole inside the interval can cancel out on a symmetric grid, so the interval is also split off-centre."""
    v = _simple(f, a, b, tol)
    if v is None:
        return None
    for r in (0.3819660113, 0.7071067811):
        m = a + (b - a) * r
        p, q = _simple(f, a, m, tol), _simple(f, m, b, tol)
        if p is None or q is None or abs(p + q - v) > 1e-8 * (1 + abs(v)):
            return None
    return v
