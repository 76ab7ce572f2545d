"""Shared pieces of the property monitors: guarded calls, assumption recorder, the judging loop."""
import contextlib
import random

from . import gen, num
from .core import Absent, Timeout, Violation, absent, crash
from .load import mp  # noqa: F401
from simpy import expr as X

Expr = X.Expr
Rat = X.Rat


def call(what, fn, allow=()):
    """run simpy code; an escaping exception is a violation unless it is one of `allow` (exception classes)"""
    try:
        return fn()
    except (Timeout, MemoryError):
        raise
    except (Violation, Absent):
        raise
    except RecursionError:
        raise Violation("raised", "%s raised RecursionError" % what)
    except Exception as ex:
        if allow and isinstance(ex, allow):
            raise
        if absent(ex):
            raise Absent(str(ex))
        raise crash(what, ex)


def envs(seed, names, k):
    rng = random.Random(seed)
    return [gen.rpoint(rng, names) for _ in range(k)]


def srepr(e, limit=400):
    try:
        s = repr(e)
    except Exception as ex:
        s = "<repr raised %s: %s>" % (type(ex).__name__, ex)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


def kids_of(e):
    """the parts of a node, from its fields and not from what its children() says"""
    n = type(e).__name__
    try:
        if n in ("Sum", "Prod"):
            return list(e.terms)
        if n == "Power":
            return [e.base, e.exponent]
        if n == "log":
            return [e.inner, e.base]
        if hasattr(type(e), "value") or n in ("Rat", "Float", "Symbol", "Any_"):
            return []
        if hasattr(e, "inner"):
            return [e.inner]
    except AttributeError:
        pass
    return list(e.children())


def names_of(e):
    """symbol names by walking the tree; does not use simpy's own symbols()"""
    out = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if type(t).__name__ == "Symbol":
            out.add(t.name)
        stack.extend(kids_of(t))
    return out


def nodes(e):
    """every node of the tree, with its depth"""
    stack = [e]
    while stack:
        t = stack.pop()
        yield t
        stack.extend(kids_of(t))


def tree_size(e, limit=20000):
    n = 0
    stack = [e]
    while stack:
        n += 1
        if n > limit:
            return n
        stack.extend(kids_of(stack.pop()))
    return n


def struct(e):
    """a structural fingerprint that does not rely on simpy's repr or =="""
    n = type(e).__name__
    if n == "Rat":
        return ("Rat", e.value.numerator, e.value.denominator)
    if n == "Float":
        return ("Float", repr(e.value))
    if n == "Symbol":
        return ("Symbol", e.name)
    if n == "Any_":
        return ("Any_", e.key)
    return (n,) + tuple(struct(c) for c in kids_of(e))


# ------------------------------------------------------------------ assumption recorder


class Assumptions:
    """Places where simpy, by design or by a listed finding, treats a subexpression as non-negative
    (or inside a principal range).  A point where one of them fails is outside the claim."""

    def __init__(self):
        self.nonneg = {}  # (b**even)**frac -> b**(...): b is taken to be >= 0
        self.positive = {}  # (a*b)**frac -> a**frac * b**frac
        self.principal = {}  # asin(sin(u)) -> u
        self.broken = False  # atan(cot(u)) -> 1/u and friends (listed finding)
        self.events = 0

    @staticmethod
    def _at(expr, env):
        return num.val(expr, num.envf(env), num.FLOAT)

    def excused(self, env, lost=False):
        """True when some assumption is false, or cannot be evaluated, at this point"""
        if self.broken:
            return True
        for e in self.nonneg.values():
            try:
                if not self._at(e, env) > 1e-9:
                    return True
            except (num.Undef, num.Foreign, ArithmeticError, ValueError):
                return True
        for e, f in self.principal.values():
            try:
                v = self._at(e, env)
                lo, hi = (0.0, num.math.pi) if f == "cos" else (-num.math.pi / 2, num.math.pi / 2)
                if not lo <= v <= hi:
                    return True
            except (num.Undef, num.Foreign, ArithmeticError, ValueError):
                return True
        if lost:
            for e in self.positive.values():
                try:
                    if not self._at(e, env) > 1e-9:
                        return True
                except (num.Undef, num.Foreign, ArithmeticError, ValueError):
                    return True
        return False


def _is_rat(e):
    return type(e).__name__ == "Rat"


@contextlib.contextmanager
def assumptions():
    A = Assumptions()
    P = X.Power
    old = P.__dict__["__new__"]
    oldf = old.__func__ if isinstance(old, staticmethod) else old

    def power_new(cls, base, exponent, *a, **k):
        try:
            b, x = base, exponent
            if isinstance(b, Expr):
                xi = None
                if isinstance(x, int):
                    xi = True
                elif _is_rat(x):
                    xi = x.value.denominator == 1
                elif hasattr(x, "denominator") and not isinstance(x, Expr):
                    xi = x.denominator == 1
                if not xi:
                    bn = type(b).__name__
                    if bn == "Power":
                        x1 = b.exponent
                        if type(x1).__name__ in ("Rat", "Float") and x1.value % 2 == 0:
                            q = x.value if _is_rat(x) else x if not isinstance(x, Expr) else None
                            prod = q * x1.value if q is not None and not isinstance(q, float) and _is_rat(x1) else None
                            ok = prod is not None and (
                                (prod.denominator == 1 and prod.numerator % 2 == 0) or prod == 1
                            )
                            if not ok:
                                A.events += 1
                                A.nonneg[struct(b.base)] = b.base
                    elif bn == "Prod":
                        A.events += 1
                        for t in b.terms:
                            A.positive[struct(t)] = t
        except (AttributeError, RecursionError):
            pass
        return oldf(cls, base, exponent, *a, **k)

    T = X.TrigFunction
    oldt = T.__dict__["__new__"]
    oldtf = oldt.__func__ if isinstance(oldt, staticmethod) else oldt

    def trig_new(cls, inner, *a, **k):
        try:
            if getattr(cls, "is_inverse", False) is True and isinstance(inner, X.TrigFunction) and not inner.is_inverse:
                if cls.func == inner.func:
                    A.events += 1
                    A.principal[struct(inner.inner), cls.func] = (inner.inner, cls.func)
                elif inner.reciprocal_class.func == cls.func:
                    A.broken = True
        except (AttributeError, RecursionError):
            pass
        return oldtf(cls, inner, *a, **k)

    P.__new__ = staticmethod(power_new)
    T.__new__ = staticmethod(trig_new)
    try:
        yield A
    finally:
        P.__new__ = old
        T.__new__ = oldt


# ------------------------------------------------------------------ judging


def judge(fa, fb, pts, obs, A=None, inexact=False, what="", tag="value", lost_ok=False):
    """compare two denotations at every point.  Returns how many points were decided 'equal'.
    A disagreement at one point where no recorded assumption is false is a violation."""
    eq = 0
    lost = []
    for env in pts:
        v = num.compare(fa, fb, env, inexact)
        if v.kind in ("ne", "lost") and A is not None and A.excused(env, v.kind == "lost"):
            obs.add("points_outside_claim")
            continue
        if v.kind == "ne":
            raise Violation(
                tag, "%s; at %s it is %s but should be %s"
                % (what() if callable(what) else what, {k: str(x) for k, x in env.items()},
                   mp.nstr(v.b, 15), mp.nstr(v.a, 15)))
        obs.add("points_" + v.kind)
        if v.kind == "eq":
            eq += 1
        elif v.kind == "lost":
            lost.append(env)
    if lost:
        obs.add("cases_with_lost_domain")
        if len(lost) >= 2 and not lost_ok:
            raise Violation(
                tag + "-undefined", "%s; at %s it has no value although the original has"
                % (what() if callable(what) else what, {k: str(x) for k, x in lost[0].items()}))
    return eq


def evaluator(e):
    return lambda env, F: num.val(e, env, F)


def denoter(r):
    return lambda env, F: num.den(r, env, F)


def defined_somewhere(r, pts):
    for env in pts:
        try:
            num.den(r, num.envf(env), num.FLOAT)
            return True
        except (num.Undef, ArithmeticError, ValueError):
            continue
    return False


def guarded(what, fn, r, pts):
    """run fn; None when it raises and recipe r has no value at any of the points anyway"""
    try:
        return call(what, fn)
    except Violation as v:
        if "OverflowError" in str(v) and gen.has_float(r):
            return None  # beyond the range of floats
        if defined_somewhere(r, pts):
            raise
        return None


def build(r, style, pts):
    """build a recipe with simpy; None when simpy refuses one that has no value at any of the points"""
    return guarded("building %s (%s)" % (gen.show(r), style), lambda: gen.build(r, style), r, pts)


def blowup(e):
    """an upper estimate of how many terms expanding e produces (over all its parts)"""
    import math

    n = type(e).__name__
    if n == "Sum":
        return sum(blowup(t) for t in e.terms)
    if n == "Prod":
        p = 1
        for t in e.terms:
            p *= blowup(t)
            if p > 10**9:
                return p
        return p
    if n == "Power":
        b, x = blowup(e.base), e.exponent
        if type(x).__name__ == "Rat" and x.value.denominator == 1:
            k = abs(int(x.value))
            if k > 200:
                return 10**9
            return max(b, math.comb(b + k - 1, k)) if b < 10**6 else b
        return max(b, blowup(x))
    ks = kids_of(e)
    return max([1] + [blowup(k) for k in ks])
