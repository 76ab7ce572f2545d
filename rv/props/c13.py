"""C13 every step of the integrator is an equivalence"""
from .. import gen, integrands, itree, num
from ..common import *
from ..core import Violation
from simpy import transforms as T
import simpy

ID = "C13"
RULE = (
    "a case is an integrand: it is given to integrate(), whose whole tree of sub-problems (abandoned branches too) is then "
    "read through the Integration.logger hook, or to each transform of the integrator directly; every step from a problem to a "
    "sub-problem is evaluated at up to 8 points mapped through the substitutions before it; it counts when at least one step "
    "was decided at a point; distinct by integrand"
)
COUNT = {"quick": 3600, "thorough": 30000}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 1000, "thorough": 6000}
ASSUMPTIONS = [
    "a power of a power or of a product with a non-integer exponent is rewritten as if its base were non-negative (finding D1 "
    "of C01); points where that is false are not used",
    "a substitution u = sin(v) with dv = du/sqrt(1-u^2) takes cos(v) to be positive (finding D7); for u = cos(v), sin(v)",
]


def make(rng, i, tier):
    names = integrands.NAMES
    k = i % 3
    if k < 2:
        n = i // 3
        r = integrands.mix(rng) if n % 10 == 9 else integrands.make(rng, names[n % len(names)])
    else:
        c = rng.random()
        if c < 0.3:
            r = integrands.make(rng, rng.choice(names))
        elif c < 0.42:
            r = tabled(rng)
        elif c < 0.58:
            r = odd(rng)
        elif c < 0.8:
            r = linear(rng)
        else:
            prof = gen.PROFILES[rng.choice(["alg", "trig", "rad", "full"])]
            r = ("*", gen.rexpr(rng, prof, 2), gen.rexpr(rng, prof, rng.choice([1, 2])))
    return {"k": "tree" if k < 2 else "direct", "r": r, "s": rng.getrandbits(40)}


def odd(rng):
    """products of what the substitutions look for"""
    x, N = gen.V("x"), gen.N
    n = N(*rng.choice([(2, 1), (3, 1), (-1, 1), (-2, 1), (1, 2), (1, 3), (4, 1)]))
    u = rng.choice([("^", x, n), ("sin", x), ("cos", x), ("tan", x), ("ln", x), ("^", ("e",), x), ("sec", x), ("*", N(3), x),
                    ("+", ("*", N(2), x), N(1)), ("^", N(2), x), ("+", ("/", x, N(2)), ("pi",)), ("/", ("^", x, N(2)), N(9)),
                    ("*", gen.V("y"), x), ("+", x, gen.V("y"))])
    g = lambda: rng.choice([
        ("^", ("e",), u), ("sin", u), ("cos", u), ("^", u, N(rng.choice([2, 3, -1, -2]))), ("+", u, N(rng.choice([1, -1, 2]))),
        ("^", ("+", u, N(1)), N(*rng.choice([(1, 2), (-1, 1), (-1, 2), (2, 1)]))), ("ln", u), ("tan", u), ("atan", u), u,
        ("sqrt", ("-", N(1), ("^", u, N(2)))), ("/", N(1), ("+", N(1), ("^", u, N(2)))),
    ])
    d = rng.choice([("^", x, N(1)), ("^", x, N(-1)), ("^", x, N(2)), ("cos", x), ("sin", x), ("^", ("sec", x), N(2)),
                    ("^", ("e",), x), ("^", x, N(-1, 2)), N(1)])
    return ("*", d, g()) if rng.random() < 0.5 else ("*", d, g(), g())


def tabled(rng):
    """a function with an integral in the table, something of that integral, and sometimes the variable once more"""
    x, N = gen.V("x"), gen.N
    f, u = rng.choice([
        (("sec", x), ("ln", ("+", ("tan", x), ("sec", x)))), (("sec", x), ("ln", ("+", ("sec", x), ("tan", x)))),
        (("^", ("sec", x), N(2)), ("tan", x)), (("*", ("sec", x), ("tan", x)), ("sec", x)), (("tan", x), ("ln", ("sec", x))),
        (("/", N(1), x), ("ln", x)), (("/", N(1), x), ("ln", ("abs", x))), (("cos", x), ("sin", x)), (("sin", x), ("cos", x)),
        (("^", x, N(2)), ("^", x, N(3))), (("^", x, N(1, 2)), ("^", x, N(3, 2))), (("^", ("e",), x), ("^", ("e",), x)),
        (("^", N(2), x), ("^", N(2), x)), (("^", ("csc", x), N(2)), ("cot", x)),
    ])
    g = lambda: rng.choice([
        u, ("^", u, N(rng.choice([2, 3, -1, -2]))), ("sin", u), ("^", ("e",), u), ("cos", u), ("+", u, N(rng.choice([1, 2, -1]))),
        ("sqrt", ("+", u, N(2))), ("/", N(1), ("+", ("^", u, N(2)), N(1))), ("*", N(3), ("^", u, N(2))),
    ])
    extra = lambda: rng.choice([x, x, ("sin", x), ("cos", x), ("sec", x), ("tan", x), ("^", x, N(2)), ("+", x, N(1)), ("ln", x), f])
    fs = [f, g()] + [g() for _ in range(rng.choice([0, 0, 0, 1]))] + [extra() for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    rng.shuffle(fs)
    return ("*",) + tuple(fs)


def linear(rng):
    """one linear argument written in several ways: a*x, a^2*x^2, a*x + b, x/a"""
    x, N = gen.V("x"), gen.N
    a = rng.choice([2, 3, 4, 5])
    y = gen.V("y")
    def arg(n):
        c = rng.random()
        if c < 0.4:
            return ("*", N(a**n), ("^", x, N(n)))
        if c < 0.6:
            return ("^", ("*", N(a), x), N(n))
        if c < 0.7:
            return ("^", ("+", ("*", N(a), x), N(1)), N(n))
        if c < 0.8:
            return ("/", ("^", x, N(n)), N(a**n))
        if c < 0.9:
            return ("^", ("*", y, x), N(n))
        return ("^", x, N(n))
    f = lambda: rng.choice([
        (rng.choice(["sin", "cos", "tan", "ln", "atan", "sec"]), arg(1)), ("^", ("e",), arg(1)),
        ("+", arg(2), N(rng.choice([1, -1, 2]))), ("^", ("+", arg(2), N(1)), N(-1)), ("sqrt", ("-", N(1), arg(2))),
        ("^", ("-", N(1), arg(2)), N(-1, 2)), arg(1), ("+", arg(1), N(2)), ("^", arg(3), N(1, 3)), ("^", ("e",), arg(2)),
    ])
    return ("*",) + tuple(f() for _ in range(rng.choice([2, 2, 3])))


def judge_with(case, A, obs):
    def judge_step(how, node, s, lhs, rhs, pts):
        eq = 0
        for p in pts:
            v = num.compare(lhs, rhs, p)
            obs.add("points_" + v.kind)
            if v.kind == "eq":
                eq += 1
            if v.kind != "ne":
                continue
            if s is not None and isinstance(s, itree.Step):
                br = itree.trig_branch(s, num.envf(p))
                if br is not None and br < 0 and abs(v.a + v.b) <= 1e-9 * (1 + abs(v.a)):
                    obs.add("points_on_the_other_trig_branch")
                    continue
            if A.excused(p):
                obs.add("points_outside_claim")
                continue
            what = "%s turned %s (d%s)" % (how, srepr(node.expr), node.var.name)
            if isinstance(s, itree.Step):
                what += " into %s * %s (d%s) with %s = (%s)/(%s)" % (
                    srepr(s.c), srepr(s.child.expr), s.child.var.name, s.child.var.name, srepr(s.cu), srepr(s.c))
            elif s is not None:
                what += " into %s" % [srepr(k.solution if k.type == "SOLUTION" else k.expr) for k in s.children or [s]]
            else:
                what += " into the sum of %s" % [srepr(k.expr) for k in node.children]
            raise Violation("step-" + how, "%s; at %s it stands for %s instead of %s [integrand %s]" % (
                what, {k: str(float(x)) for k, x in p.items()}, mp.nstr(v.b, 12), mp.nstr(v.a, 12), gen.show(gen.tup(case["r"]))))
        if eq:
            obs.add("steps_decided")
            obs.add("step_" + how)
            return 1
        obs.add("steps_undecided")
        return 0

    return judge_step


def run(case, obs):
    r = gen.tup(case["r"])
    x = X.Symbol("x")
    pts = itree.spoints(case["s"], sorted(gen.variables(r) | {"x"}), 8)
    e = build(r, "op", pts)
    if e is None or "x" not in names_of(e):
        return None
    judged = 0
    with assumptions() as A:
        if case["k"] == "tree":
            with itree.watching() as W:
                guarded("integrate(%s, x)" % srepr(e), lambda: simpy.integrate(e, x), r, pts)
            if not W.roots:
                return None
            for node, path in itree.walk(W.roots[-1][2]):
                obs.add("nodes")
                judged += itree.check_steps(node, path, pts, A, obs, judge_with(case, A, obs))
        else:
            if not defined_somewhere(r, pts):
                return None
            es = call("%s.simplify()" % srepr(e), lambda: e.simplify()) if tree_size(e) < 60 and blowup(e) < 300 else e
            for cls in list(T.HEURISTICS) + list(T.SAFE_TRANSFORMS):
                node = T.Node(es, x)
                if cls in T.HEURISTICS and type(es).__name__ == "Prod":
                    # constants are always pulled out before a heuristic is tried
                    node = T.Node(X.Prod([t for t in es.terms if "x" in names_of(t)]), x)
                tr = cls()
                ok = call("%s().check(%s)" % (cls.__name__, srepr(node.expr)), lambda: tr.check(node))
                if not ok:
                    continue
                call("%s().forward(%s)" % (cls.__name__, srepr(node.expr)), lambda: tr.forward(node))
                for nd, path in itree.walk(node):
                    judged += itree.check_steps(nd, path, pts, A, obs, judge_with(case, A, obs))
    return repr((case["k"], r)) if judged else None


def shrink(case, fails):
    return dict(case, r=gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s))))


def describe(case):
    return {"mode": case["k"], "integrand": gen.show(gen.tup(case["r"]))}


def branch():
    x = X.Symbol("x")
    e = (X.sec(x) ** 2 / X.tan(x) ** 2).simplify()
    with itree.watching() as W:
        simpy.integrate(e, x)
    if not W.roots:
        return None
    pts = itree.spoints(7, ["x"], 12)
    for node, path in itree.walk(W.roots[-1][2]):
        if path is None or node.is_filler or node.type == "AND":
            continue
        for ch in node.children:
            if ch.is_filler:
                continue
            s = itree.read_step(node, ch)
            for p in pts:
                ef = num.envf(p)
                try:
                    br = itree.trig_branch(s, ef)
                except (num.Undef, ArithmeticError, ValueError):
                    continue
                if br is not None and br < 0:
                    v = num.compare(evaluator(node.expr), itree.right_side(s), p)
                    if v.kind == "ne":
                        return "the step from %s to %s" % (srepr(node.expr), srepr(ch.expr))
    return None


KNOWN = {"D7": branch}
