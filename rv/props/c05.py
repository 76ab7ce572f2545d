"""C05 expressions are immutable: no operation changes an existing expression, a caller's list, or a table"""
import random
import sys
import warnings

from .. import gen
from ..common import *
from ..core import Violation

import simpy
from simpy import regex, simplify as S, polynomial as P, integration
import importlib

SM = importlib.import_module("simpy.simplify.simplify")
PTS = importlib.import_module("simpy.simplify.product_to_sum")

ID = "C05"
RULE = (
    "a case is a random program of 12-40 public operations over a growing pool of shared expressions (arithmetic, "
    "constructors given lists, expand, factor, simplify and the named rewriters, diff, integrate, subs, evalf, printing, "
    "LaTeX, pattern matching, replace, polynomial conversion); after every operation the structural fingerprint of every "
    "pool member, of the lists passed in, and of every expression held by a module-level table is compared with the one "
    "taken at its creation, and at the end everything each member has cached is compared with a freshly rebuilt copy; it "
    "counts when at least 8 operations returned"
)
COUNT = {"quick": 560, "thorough": 5000}
ENDS = False  # long programs
MIN = {"quick": 300, "thorough": 1500}
X_ = X.Symbol("x")

INTEGRANDS = ["x^2", "x*sin(x)", "ln(x)", "e^x*x", "1/(x+1)", "x^2/(x+3)", "cos(x)^2", "tan(x)", "1/(1+x^2)", "x*e^(x^2)",
              "(x+2)^3", "asin(x)", "sin(x)*cos(x)", "1/(x^2+5*x+6)", "sec(x)^2", "x/(x^2+1)", "x^3*ln(x)"]


def integrand(k):
    x, e = X_, X.e
    return [x**2, x * X.sin(x), X.log(x), e**x * x, 1 / (x + 1), x**2 / (x + 3), X.cos(x) ** 2, X.tan(x), 1 / (1 + x**2),
            x * e ** (x**2), (x + 2) ** 3, X.asin(x), X.sin(x) * X.cos(x), 1 / (x**2 + 5 * x + 6), X.sec(x) ** 2,
            x / (x**2 + 1), x**3 * X.log(x)][k]


OPS = [
    ("add", 4), ("mul", 4), ("sub", 2), ("div", 2), ("pow", 3), ("neg", 1), ("sumlist", 4), ("prodlist", 4), ("fn", 3),
    ("expand", 4), ("factor", 3), ("simplify", 3), ("diff", 3), ("subs", 3), ("evalf", 2), ("repr", 2), ("latex", 2),
    ("symbols", 2), ("contains", 1), ("eq", 1), ("match", 3), ("replace", 2), ("count", 1), ("expand_logs", 2),
    ("pythag", 2), ("pts", 2), ("fraction", 3), ("poly", 2), ("nd", 2), ("integrate", 1.2), ("nesting", 1), ("trig", 1.5),
    ("abs", 1), ("sum2", 2),
]
FN = ("sin", "cos", "tan", "sec", "atan", "log", "sqrt", "csc")


def make(rng, i, tier):
    prof = gen.PROFILES[("alg", "rad", "full", "trig")[i % 4]]
    rs = [gen.recipe(rng, prof, rng.choice([1, 2, 2, 3])) for _ in range(rng.randint(3, 5))]
    n = rng.randint(12, 30) if tier == "quick" else rng.randint(12, 45)
    prog = [[gen.choose(rng, OPS)] + [rng.randrange(10**6) for _ in range(4)] for _ in range(n)]
    return {"rs": rs, "prog": prog, "s": rng.getrandbits(40)}


# ------------------------------------------------------------------ module-level tables


def _collect(o, depth, out, path):
    if isinstance(o, Expr):
        out.append((path, o))
    elif depth > 0 and isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            _collect(v, depth - 1, out, "%s[%d]" % (path, i))
    elif depth > 0 and isinstance(o, dict):
        for k, v in list(o.items()):
            _collect(v, depth - 1, out, "%s[%r]" % (path, k))


def tables():
    """every expression reachable from a module global or class attribute of simpy"""
    out = []
    for name, mod in sorted(sys.modules.items()):
        if not (name == "simpy" or name.startswith("simpy.")) or mod is None:
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__.startswith("simpy"):
                    for k2, v2 in sorted(vars(v).items()):
                        _collect(v2, 3, out, "%s.%s.%s" % (name, k, k2))
            else:
                _collect(v, 3, out, "%s.%s" % (name, k))
    return out


class Watch:
    def __init__(self):
        for cls in (X.sin, X.cos, X.tan, X.sec, X.csc, X.cot):
            cls(X.pi / 6)  # fill lazily built tables first
        for cls in (X.asin, X.acos, X.atan):
            cls(X.Rat(0))
        self.tables = [(p, o, struct(o)) for p, o in tables()]
        self.exprs = []
        self.lists = []

    def add(self, what, o):
        self.exprs.append((what, o, struct(o)))

    def add_list(self, what, lst):
        self.lists.append((what, lst, list(lst)))

    def check(self, after, everything=False):
        for p, o, s in self.tables + self.exprs if everything else self.exprs:
            if struct(o) != s:
                raise Violation("mutated", "%s changed from %r to %s" % (p, s, srepr(o)) + " after " + after)
        for p, lst, was in self.lists:
            if len(lst) != len(was) or any(a is not b for a, b in zip(lst, was)):
                raise Violation("mutated-argument", "%s: the list the caller passed was changed by %s" % (p, after))


# ------------------------------------------------------------------ operations

ANY = regex.any_


def patterns(k):
    return [X.sin(ANY), ANY * X_, 1 + ANY**2, X.sin(ANY) * X.cos(ANY), 1 + X.tan(ANY) ** 2, ANY + 1, X.e**ANY][k % 7]


def step(op, pool, a, b, c, d, W):
    """-> new expression or None"""
    p, q, r = pool[a % len(pool)], pool[b % len(pool)], pool[c % len(pool)]
    if op == "add":
        return p + q
    if op == "sub":
        return p - q
    if op == "mul":
        return p * q
    if op == "div":
        return p / q
    if op == "pow":
        return p ** [2, 3, -1, -2, X.Rat(1, 2), 2][d % 6]
    if op == "neg":
        return -p
    if op == "abs":
        return abs(p)
    if op in ("sumlist", "prodlist"):
        lst = [p, q, r, p] if d % 3 == 0 else [p, r, q] if d % 3 == 1 else [p, X.Rat(d % 5), q]
        W.add_list("%s(%s)" % (op, [srepr(t, 40) for t in lst]), lst)
        return X.Sum(lst) if op == "sumlist" else X.Prod(lst)
    if op == "sum2":
        # aliasing: hand the operand's own list of terms to a constructor
        if type(p).__name__ not in ("Sum", "Prod"):
            return None
        return X.Sum(p.terms) if d % 2 else X.Prod(p.terms)
    if op == "fn":
        f = FN[d % len(FN)]
        return {"log": X.log, "sqrt": X.sqrt}.get(f) and getattr(X, f)(p) or gen.FN1.get(f, X.log)(p)
    if op == "expand":
        return p.expand() if blowup(p) < 150 and p.expandable() else None
    if op == "factor":
        return p.factor() if type(p).__name__ == "Sum" else None
    if op == "simplify":
        return p.simplify() if blowup(p) < 60 else None
    if op == "diff":
        return p.diff(X_)
    if op == "subs":
        dct = {"x": q} if d % 2 else {"x": X.Symbol("y"), "y": 2}
        was = dict(dct)
        g = p.subs(dct)
        if list(dct) != list(was) or any(dct[k] is not was[k] for k in was):
            raise Violation("mutated-argument", "subs changed the dictionary it was given")
        return g
    if op == "evalf":
        p.evalf({"x": 1.25, "y": 0.5, "z": 2.0})
        return None
    if op == "repr":
        repr(p)
        return None
    if op == "latex":
        p.latex()
        return None
    if op == "symbols":
        p.symbols()
        return None
    if op == "contains":
        p.contains(X_)
        return None
    if op == "eq":
        p == q
        return None
    if op == "nesting":
        X.nesting(p, X_), X.nesting(p)
        return None
    if op == "match":
        if p.has(regex.Any_):
            return None
        regex.eq(p, patterns(d), up_to_factor=bool(c % 2))
        return None
    if op == "replace":
        return regex.replace(p, X_, q)
    if op == "count":
        regex.count(p, q)
        return None
    if op == "expand_logs":
        return S.expand_logs(p) if blowup(p) < 60 else None
    if op == "pythag":
        return S.pythagorean_simplification(p) if blowup(p) < 60 else None
    if op == "trig":
        return SM.trig_simplify(p)[0] if blowup(p) < 40 else None
    if op == "pts":
        return PTS.product_to_sum_unit(p) if blowup(p) < 40 else None
    if op == "fraction":
        return SM.rewrite_as_one_fraction(p)
    if op == "poly":
        if not P.is_polynomial(p, X_):
            return None
        lst = P.to_const_polynomial(p, X_)
        W.add_list("polynomial of " + srepr(p, 60), lst)
        P.rid_ending_zeros(lst)
        return P.polynomial_to_expr(lst, X_)
    if op == "nd":
        if type(p).__name__ != "Prod":
            return None
        n, dd = p.numerator_denominator
        return n if d % 2 else dd
    if op == "integrate":
        f = integrand(d % len(INTEGRANDS))
        W.add("integrand " + INTEGRANDS[d % len(INTEGRANDS)], f)
        return integration.integrate(f, X_)
    raise ValueError(op)


RAISES = (NotImplementedError, ArithmeticError, ValueError, AssertionError, TypeError, AttributeError, RecursionError,
          IndexError, KeyError)


def run(case, obs):
    pts = envs(case["s"], ["x", "y", "z"], 2)
    W = Watch()
    pool = []
    for r in case["rs"]:
        r = gen.tup(r)
        e = build(r, "op", pts)
        if e is not None and tree_size(e) < 60:
            pool.append(e)
            W.add("expression " + srepr(e, 120), e)
    if not pool:
        return None
    done = 0
    hist = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op, a, b, c, d in case["prog"]:
            try:
                g = step(op, pool, a, b, c, d, W)
                done += 1
                obs.add("op_" + op)
            except RAISES:
                g = None
                obs.add("raised_" + op)
            hist.append(op)
            W.check("%s (operation %d: %s)" % (op, len(hist), " ".join(hist[-6:])), len(hist) % 12 == 0)
            if isinstance(g, Expr) and 1 < tree_size(g, 200) < 120 and not g.has(regex.Any_):
                pool.append(g)
                W.add("result of %s, %s" % (op, srepr(g, 120)), g)
                if len(pool) > 14:
                    pool.pop(a % len(pool))
    obs.add("fingerprints_compared", len(W.exprs) * len(hist))
    obs.max("max_watched", len(W.exprs))
    obs.max("max_table_expressions", len(W.tables))
    for e in pool:
        if tree_size(e) < 60:
            coherent(e, obs)
    W.check("asking the remaining expressions about themselves", True)
    if done < 8:
        return None
    return tuple(map(str, case["prog"]))


# ------------------------------------------------------------------ cache coherence


def rebuild(e):
    n = type(e).__name__
    if n == "Rat":
        return X.Rat(e.value)
    if n == "Symbol":
        return X.Symbol(e.name)
    if n in ("Sum", "Prod"):
        return getattr(X, n)([rebuild(t) for t in e.terms])
    if n == "Power":
        return X.Power(rebuild(e.base), rebuild(e.exponent))
    if n == "log":
        return X.log(rebuild(e.inner), rebuild(e.base))
    if not kids_of(e):
        return X.Float(e.value) if n == "Float" else e
    return type(e)(rebuild(e.inner))


def view(e):
    """everything an expression answers about itself"""
    v = {}

    def put(k, f):
        try:
            v[k] = f()
        except RAISES as ex:
            v[k] = "raised " + type(ex).__name__

    put("symbols()", lambda: sorted(s.name for s in e.symbols()))
    put("expandable()", e.expandable)
    if v["expandable()"] is True and blowup(e) < 60:
        put("expand()", lambda: struct(e.expand()))
    put("nesting", lambda: (X.nesting(e), X.nesting(e, X_)))
    put("repr", lambda: repr(e))
    put("latex", lambda: e.latex())
    put("diff", lambda: struct(e.diff(X_)))
    if type(e).__name__ == "Prod":
        put("numerator_denominator", lambda: [struct(t) for t in e.numerator_denominator])
    if type(e).__name__ == "Sum":
        put("factor", lambda: struct(e.factor()))
    put("x*self", lambda: struct(X_ * e))
    put("x+self", lambda: struct(X_ + e))
    return v


def coherent(e, obs):
    try:
        f = rebuild(e)
    except RAISES:
        return
    if struct(f) != struct(e):
        obs.add("not_rebuildable")
        return
    a, b = view(e), view(f)
    for k in a:
        if a[k] != b.get(k):
            raise Violation("stale", "%s of the used expression %s is %r but of a fresh equal one %r"
                            % (k, srepr(e), a[k], b.get(k)))
    obs.add("answers_compared_with_fresh", len(a))


def shrink(case, fails):
    prog = case["prog"]
    i = len(prog) - 1
    while i >= 0:
        t = prog[:i] + prog[i + 1:]
        if fails(dict(case, prog=t)):
            prog = t
        i -= 1
    return dict(case, prog=prog)


def describe(case):
    return "%s then %s" % ([gen.show(gen.tup(r)) for r in case["rs"]], " ".join(p[0] for p in case["prog"]))
