"""C12 a definite integral is the area under the integrand, oriented and additive"""
from fractions import Fraction

from .. import gen, integrands, itree, num, quad
from ..common import *
from ..core import Violation
from .c11 import extended
import simpy

ID = "C12"
RULE = (
    "a case is an integrand with bounds: numbers (in the domain by random choice), multiples of pi, or symbols; a numeric answer "
    "is compared with Gauss-Legendre quadrature of the integrand when refining the quadrature changes nothing, swapped bounds and a "
    "split interval are compared with the whole, symbols in the bounds are renamed to the variable of integration, and with a symbolic upper bound the derivative by the bound is compared with the "
    "integrand, and the same function is integrated by another of its variables; it counts when one of these was decided; distinct by integrand and bounds"
)
COUNT = {"quick": 2600, "thorough": 20000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 700, "thorough": 4000}
ASSUMPTIONS = [
    "the integrand has a value at both bounds, and the area is judged only where it is smooth enough in between for the "
    "quadrature to settle",
    "answers that went through a substitution u = sin(v) with dv = du/sqrt(1-u^2) are judged where cos(v) > 0 on the whole "
    "interval (finding D7)",
    "a power of a power or of a product with a non-integer exponent is rewritten as if its base were non-negative (finding D1)",
]


def bound(rng):
    c = rng.random()
    if c < 0.45:
        return gen.N(rng.randint(-5, 6))
    if c < 0.75:
        return gen.N(rng.randint(-12, 16), rng.choice([2, 3, 4, 5]))
    if c < 0.95:
        return ("/", ("*", gen.N(rng.choice([-2, -1, 1, 1, 2, 3])), ("pi",)), gen.N(rng.choice([1, 2, 3, 4, 6])))
    return rng.choice([("e",), ("sqrt", gen.N(2)), ("f", 0.75)])


def make(rng, i, tier):
    names = integrands.NAMES
    if i % 8 == 7:
        r = integrands.mix(rng)
    else:
        r = integrands.make(rng, names[i % len(names)])
    c = rng.random()
    if c < 0.75:
        a = bound(rng)
        b = bound(rng) if rng.random() < 0.6 else ("+", a, gen.N(rng.choice([1, 1, -1, 2]), rng.choice([1, 2, 3, 4])))
    elif c < 0.9:
        a, b = bound(rng), gen.V("t")
    else:
        a, b = gen.V("s"), rng.choice([gen.V("t"), ("^", gen.V("t"), gen.N(2)), ("+", gen.V("s"), gen.N(1)), ("*", gen.N(2), gen.V("s")), bound(rng)])
    return {"r": r, "a": a, "b": b, "s": rng.getrandbits(40)}


def relabel(r, name):
    if r == ("v", name):
        return ("v", "x")
    ks = gen.kids(r)
    return gen.with_kids(r, [relabel(k, name) for k in ks]) if ks else r


def fn(e, env):
    ef = num.envf(env)

    def f(t):
        d = dict(ef)
        d["x"] = t
        return num.val(e, d, num.FLOAT)
    return f


def fval(e, env):
    """double value of e, or None"""
    try:
        v = num.val(e, num.envf(env), num.FLOAT)
    except (num.Undef, ArithmeticError, ValueError):
        return None
    return v if v == v and abs(v) < 1e12 else None


def excused(root, A, env, lo, hi, var="x"):
    """does a listed finding (D7, D1) explain a wrong value on this interval?"""
    for j in range(-1, 14):
        p = dict(env)
        p[var] = Fraction(lo + (hi - lo) * (j + 0.5) / 13 if 0 <= j < 13 else (lo if j < 0 else hi))
        if root is not None:
            pe, off = extended(root, p)
            if off:
                return "points_on_the_other_trig_branch"
        else:
            pe = p
        if A.excused(pe, True):
            return "points_outside_claim"
    return None


def integrate(e, a, b, r, pts, form=0):
    """the ways a user may write it: numbers as Python numbers, and the variable left out when it is the only symbol"""
    x = X.Symbol("x")
    if form:
        a, b = ((t.value if type(t).__name__ in ("Rat", "Float") else t) for t in (a, b))
        if form == 2 and names_of(e) == {"x"}:
            return guarded("integrate(%s, (%r, %r))" % (srepr(e), a, b), lambda: simpy.integrate(e, (a, b)), r, pts)
    return guarded("integrate(%s, (x, %s, %s))" % (srepr(e), srepr(a), srepr(b)), lambda: simpy.integrate(e, (x, a, b)), r, pts)


def run(case, obs):
    r, ra, rb = gen.tup(case["r"]), gen.tup(case["a"]), gen.tup(case["b"])
    names = (gen.variables(r) | gen.variables(ra) | gen.variables(rb)) - {"x"}
    pts = itree.spoints(case["s"], sorted(names | {"x"}), 6)
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 120 or "x" not in names_of(e):
        return None
    a, b = gen.build(ra), gen.build(rb)
    env = {k: v for k, v in pts[0].items() if k != "x"}
    af, bf = fval(a, env), fval(b, env)
    # where the integrand has no value at a bound, the claim is empty
    ends = [p for p in (Fraction(af), Fraction(bf))]
    atends = [dict(env, x=p) for p in ends]
    for p in atends:
        if fval(e, p) is None:
            return None
    with itree.watching() as W, assumptions() as A:
        v = integrate(e, a, b, r, atends, case["s"] // 7 % 3)
        if v is None:
            obs.add("unsolved")
            return None
        what = "integrate(%s, (x, %s, %s)) = %s" % (srepr(e), srepr(a), srepr(b), srepr(v))
        if not isinstance(v, Expr):
            raise Violation("not-an-expression", "%s is %r" % (srepr(e), v))
        left = names_of(v) - names_of(e) - names_of(a) - names_of(b)
        if left or ("x" in names_of(v) and "x" not in names_of(a) | names_of(b)):
            raise Violation("leaked-variable", what)
        back = integrate(e, b, a, r, atends) if case["s"] % 3 == 0 else None
        zero = integrate(e, a, a, r, atends) if case["s"] % 5 == 0 else None
        mid = None
        if case["s"] % 4 == 1 and af != bf:
            m = (a + b) / 2
            p1, p2 = integrate(e, a, m, r, atends), integrate(e, m, b, r, atends)
            if p1 is not None and p2 is not None:
                mid = (m, p1, p2)
        bound_names = names_of(a) | names_of(b)
        dummy = dn = None
        nm = sorted(bound_names)[case["s"] // 16 % len(bound_names)] if bound_names else None
        if nm is not None and nm != "x" and nm not in gen.variables(r) and case["s"] % 2 == 0:
            # the variable of integration is bound: a bound may mention a symbol of the same name
            ax, bx = (gen.build(relabel(q, nm)) for q in (ra, rb))
            dn = nm
            dummy = integrate(e, ax, bx, r, [dict(z, x=z[nm]) for z in pts])
            if dummy is not None and nm in names_of(dummy):
                raise Violation("leaked-variable", "integrate(%s, (x, %s, %s)) = %s" % (srepr(e), srepr(ax), srepr(bx), srepr(dummy)))
    root = W.roots[0][2] if W.roots else None
    inexact = gen.has_float(r) or gen.has_float(ra) or gen.has_float(rb)
    did = 0

    def explained(lo=None, hi=None):
        k = excused(root, A, env, af if lo is None else lo, bf if hi is None else hi)
        if k:
            obs.add(k)
        return k

    def same(tag, text, p, q):
        """p, q: evaluators; equal at the sample assignments"""
        n = 0
        for d in [{k: t for k, t in z.items() if k != "x" or "x" in names_of(a) | names_of(b)} for z in pts]:
            c = num.compare(p, q, d, True)
            if c.kind == "eq":
                n += 1
            if c.kind == "ne" and not explained(fval(a, d) or 0.0, fval(b, d) or 0.0) and fval(e, dict(d, x=Fraction(fval(a, d) or 0.0))) is not None:
                raise Violation(tag, "%s: %s; at %s" % (what, text % (mp.nstr(c.b, 12), mp.nstr(c.a, 12)), {k: str(t) for k, t in d.items()}))
        obs.add(tag + ("_agreed" if n else "_undecided"))
        return n

    if back is not None:
        did += same("swapped-bounds", "with the bounds swapped it is %s, and should be %s", lambda d, F: -num.val(v, d, F), evaluator(back))
    if zero is not None:
        n = 0
        for d in pts:
            c = num.compare(lambda d, F: F.rat(Fraction(0)), evaluator(zero), d, True)
            if c.kind == "ne":
                raise Violation("empty-interval", "integrate(%s, (x, %s, %s)) = %s" % (srepr(e), srepr(a), srepr(a), srepr(zero)))
            n += c.kind == "eq"
        obs.add("empty_interval" + ("_agreed" if n else "_undecided"))
        did += n
    if mid is not None:
        did += same("split-interval", "the two halves give %s instead of %s", evaluator(v),
                    lambda d, F: num.val(mid[1], d, F) + num.val(mid[2], d, F))

    if dummy is not None:
        n = 0
        for z in pts:
            c = num.compare(evaluator(v), lambda d, F: num.val(dummy, dict(d, x=d[dn]), F), {k: t for k, t in z.items() if k != "x"}, inexact)
            if c.kind == "ne":
                raise Violation("bound-variable", "%s, but with x for %s in the bounds it is %s" % (what, dn, srepr(dummy)))
            n += c.kind == "eq"
        obs.add("bound_variable" + ("_agreed" if n else "_undecided"))
        did += n

    # the area itself
    if abs(af - bf) <= 7:
        f = fn(e, env)
        try:
            q = quad.integral(f, af, bf)
        except (num.Undef, ArithmeticError, ValueError):
            q = None
        if q is None:
            obs.add("quadrature_undecided")
        else:
            val = fval(v, env)
            if val is None:
                # a logarithm of a negative number may cancel out
                try:
                    z = num.cval(v, num.envf(env))
                    val = z.real if abs(z.imag) < 1e-9 * (1 + abs(z)) else None
                    obs.add("complex_values" + ("_real" if val is not None else "_not_real"))
                except (num.Undef, ArithmeticError, ValueError, TypeError):
                    obs.add("values_not_computable")
            if val is not None:
                tol = 2e-7 * (1 + abs(q) + abs(af - bf) * max(abs(f(af)), abs(f(bf))))
                if abs(val - q) <= tol:
                    obs.add("areas_agreed")
                    did += 1
                elif not explained():
                    # is the difference real, or lost digits in the answer?
                    c = num.compare(evaluator(v), evaluator(v), env, inexact)
                    if c.kind != "eq" or abs(float(c.a) - q) <= tol:
                        obs.add("areas_ambiguous")
                    else:
                        raise Violation("wrong-area", "%s which is %.12g, but the area is %.12g%s" % (
                            what, float(c.a), q, " at %s" % {k: str(t) for k, t in env.items()} if env else ""))
    # the same function by another of its variables
    nm = next((k for k in sorted(names_of(e)) if k != "x" and k not in names_of(a) | names_of(b)), None)
    if nm is not None and case["s"] % 3 != 2:
        did += by_another(e, a, b, af, bf, nm, r, pts, obs)
    # Leibniz: with a symbolic upper bound t the derivative by t is the integrand at t (times the bound's derivative)
    for nm in sorted((names_of(a) | names_of(b)) - names_of(e)):
        D = num.derivative(evaluator(v), nm)
        da, db = num.derivative(evaluator(a), nm), num.derivative(evaluator(b), nm)

        def rhs(d, F):
            ea = dict(d, x=num.val(a, d, F))
            eb = dict(d, x=num.val(b, d, F))
            s = F.rat(Fraction(0))
            if nm in names_of(b):
                s = s + num.val(e, eb, F) * db(d, F)
            if nm in names_of(a):
                s = s - num.val(e, ea, F) * da(d, F)
            return F.check(s)

        for p in pts:
            c = num.compare(rhs, D, p, inexact)
            obs.add("leibniz_" + c.kind)
            if c.kind == "ne":
                lo, hi = fval(a, p), fval(b, p)
                if lo is None or hi is None:
                    continue
                k = excused(root, A, {q: t for q, t in p.items() if q != "x"}, lo, hi)
                if k:
                    obs.add(k)
                    continue
                raise Violation("leibniz", "%s; its derivative by %s at %s is %s instead of %s" % (
                    what, nm, {q: str(t) for q, t in p.items()}, mp.nstr(c.b, 12), mp.nstr(c.a, 12)))
            did += c.kind == "eq"
    return repr((r, ra, rb)) if did else None


def by_another(e, a, b, af, bf, nm, r, pts, obs):
    env = {k: v for k, v in pts[0].items() if k != nm}
    if any(fval(e, {**env, nm: Fraction(p)}) is None for p in (af, bf)) or abs(af - bf) > 7:
        return 0
    y = X.Symbol(nm)
    with itree.watching() as W, assumptions() as A:
        v = guarded("integrate(%s, (%s, %s, %s))" % (srepr(e), nm, srepr(a), srepr(b)), lambda: simpy.integrate(e, (y, a, b)), r,
                    [{**env, nm: Fraction(p)} for p in (af, bf)])
    if v is None:
        return 0
    what = "integrate(%s, (%s, %s, %s)) = %s" % (srepr(e), nm, srepr(a), srepr(b), srepr(v))
    if not isinstance(v, Expr) or nm in names_of(v) or names_of(v) - names_of(e) - names_of(a) - names_of(b):
        raise Violation("leaked-variable", what)
    ef = num.envf(env)
    try:
        q = quad.integral(lambda t: num.val(e, {**ef, nm: t}, num.FLOAT), af, bf)
    except (num.Undef, ArithmeticError, ValueError):
        q = None
    g = fval(v, env)
    if q is None or g is None:
        obs.add("another_variable_undecided")
        return 0
    ends = [abs(fval(e, {**env, nm: Fraction(p)})) for p in (af, bf)]
    if abs(g - q) <= 2e-7 * (1 + abs(q) + abs(af - bf) * max(ends)):
        obs.add("another_variable_agreed")
        return 1
    c = num.compare(evaluator(v), evaluator(v), env, True)
    if c.kind != "eq" or abs(float(c.a) - q) <= 1e-6 * (1 + abs(q)):
        return 0
    k = excused(W.roots[0][2] if W.roots else None, A, env, af, bf, nm)
    if k:
        obs.add(k)
        return 0
    raise Violation("wrong-area", "%s which is %.12g, but the area is %.12g at %s" % (what, float(c.a), q, {k: str(t) for k, t in env.items()}))


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return "integrate %s over %s..%s" % tuple(gen.show(gen.tup(case[k])) for k in "rab")


def probe():
    x = X.Symbol("x")
    v = simpy.integrate(X.csc(2 * x) ** 2, (x, X.pi / 3, X.pi / 3 - 1))
    f = fval(v, {}) if v is not None else None
    q = quad.integral(fn(X.csc(2 * x) ** 2, {}), num.math.pi / 3, num.math.pi / 3 - 1)
    if f is None or q is None or abs(f - q) < 1e-6:
        return None
    return "integrate(csc(2x)^2, (x, pi/3, pi/3-1)) is %.6g instead of %.6g" % (f, q)


KNOWN = {"D7": probe}
