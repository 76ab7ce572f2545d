"""C16 subs() is simultaneous substitution"""
import random
from fractions import Fraction

from .. import families, gen, integrands, num
from ..common import *
from ..core import Violation

ID = "C16"
RULE = (
    "a case is an expression (random, or the result of diff/expand/simplify/factor on one) and a substitution (subs(), or evalf() with the same mapping) of 1-3 of its symbols by "
    "numbers (int, Fraction, float, pi, e) or expressions, which may mention the replaced symbols (swaps, shifts); the result's value at "
    "sample points is compared with the value of the original at the substituted point; it counts when two points (one for a number) "
    "were decided; distinct by expression and substitution"
)
COUNT = {"quick": 15000, "thorough": 110000}
MIN = {"quick": 3000, "thorough": 9000}
NAMES = ("x", "y", "z")
SPECIAL = [N for N in (0, 1, -1, 2, -2, 3, 4, 9, -4, 8, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4), Fraction(3, 2), Fraction(-1, 3), Fraction(4, 9))]


def value(rng, mode):
    c = rng.random()
    if mode == "num":
        if c < 0.6:
            q = Fraction(rng.choice(SPECIAL))
        elif c < 0.8:
            q = Fraction(rng.randint(-30, 30), rng.randint(1, 12))
        elif c < 0.9:
            return rng.choice([("pi",), ("e",), ("/", ("pi",), gen.N(rng.choice([2, 3, 4, 6, -3]))), ("*", gen.N(2), ("pi",)), ("neg", ("pi",)),
                               ("sqrt", gen.N(2)), ("sqrt", gen.N(3))])
        else:
            return ("f", rng.choice([0.5, 1.25, -0.75, 3.5, 0.1, 2.0]))
        return gen.N(q.numerator, q.denominator)
    if c < 0.2:
        return ("v", rng.choice(["x", "y", "z", "t", "w"]))
    if c < 0.4:
        return ("+", ("v", rng.choice(NAMES)), gen.N(rng.choice([1, -1, 2, 5])))
    if c < 0.5:
        return rng.choice([("neg", ("v", "x")), ("/", gen.N(1), ("v", "x")), ("^", ("v", "x"), gen.N(2)), ("^", ("e",), ("v", "x")),
                           ("sin", ("v", "x")), ("ln", ("v", "x")), ("sqrt", ("v", "x")), ("abs", ("v", "y")), ("*", gen.N(2), ("v", "x")),
                           ("+", ("v", "x"), ("pi",)), ("atan", ("v", "x"))])
    return gen.recipe(rng, rng.choice(["alg", "rad", "full"]), rng.choice([1, 1, 2]))


def make(rng, i, tier):
    c = rng.random()
    if c < 0.7:
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "full", "trig"]), rng.choice([1, 2, 2, 3, 3]))
    elif c < 0.85:
        r = integrands.make(rng, rng.choice(integrands.NAMES))
    else:
        r = ("*", families.member(rng)[1], gen.recipe(rng, "alg", 1))
    if rng.random() < 0.08:
        r = gen.decimals(rng, r)
    mode = ("num", "expr", "mixed")[i % 3]
    names = sorted(gen.variables(r)) or ["x"]
    keys = [n for n in names if rng.random() < 0.7] or [names[0]]
    if mode == "num" and rng.random() < 0.5:
        keys = names
    if rng.random() < 0.1:
        keys.append("unused")
    subs = [[k, value(rng, mode if mode != "mixed" else rng.choice(["num", "expr"]))] for k in keys]
    if mode == "expr" and len(names) >= 2 and rng.random() < 0.3:
        a, b = rng.sample(names, 2)  # a swap shows whether the substitution is simultaneous
        subs = [[a, ("v", b)], [b, ("v", a)]]
    rng.shuffle(subs)
    return {"r": r, "subs": subs, "s": rng.getrandbits(40), "first": rng.choice(["", "", "", "", "diff", "expand", "simplify", "factor"]),
            "raw": rng.random() < 0.5, "ev": rng.random() < 0.12}


def plain(r):
    """what a user would type for a number"""
    if r[0] == "n":
        return r[1] if r[2] == 1 else Fraction(r[1], r[2])
    if r[0] == "f":
        return r[1]
    return None


def run(case, obs):
    r = gen.tup(case["r"])
    subs = [(k, gen.tup(v)) for k, v in case["subs"]]
    after = set()
    for _, v in subs:
        gen.variables(v, after)
    names = sorted(gen.variables(r) | after | {"x"})
    pts = envs(case["s"], names, 8)
    e = build(r, "op", pts)
    if e is None:
        return None
    if case["first"]:
        if blowup(e) > 60 or tree_size(e) > 60:
            return None
        k = case["first"]
        if k == "diff":
            e = guarded("diff", lambda: e.diff(X.Symbol("x")), r, pts)
        elif k == "expand":
            e = guarded("expand", lambda: e.expand() if e.expandable() else e, r, pts)
        elif k == "simplify":
            e = guarded("simplify", lambda: e.simplify(), r, pts)
        elif type(e).__name__ == "Sum":
            e = guarded("factor", lambda: e.factor(), r, pts)
        if e is None:
            return None
    d = {}
    reps = {}
    made = []
    inexact = gen.has_float(r)
    for k, v in subs:
        with assumptions() as A:
            g = build(v, "op", pts)
        made.append(A)
        if g is None or tree_size(g) > 60:
            return None
        reps[k] = v
        p = plain(v)
        d[k] = p if case["raw"] and p is not None else g
        inexact = inexact or gen.has_float(v)
    # numbers substituted into a tower of powers could need astronomically large integers
    if not gen.tame(graft(r, reps)) or not small_powers(e, reps):
        return None

    def ref(env, F):
        e2 = dict(env)
        for k, v in subs:
            e2[k] = num.den(v, env, F)
        return num.val(e, e2, F)

    def defined():
        for env in pts:
            try:
                ref(num.envf(env), num.FLOAT)
                return True
            except (num.Undef, ArithmeticError, ValueError):
                continue
        return False

    how = "evalf" if case.get("ev") else "subs"
    inexact = inexact or how == "evalf"
    what = lambda: "%s .%s(%s) = %s" % (srepr(e), how, ", ".join("%s: %s" % (k, gen.show(v)) for k, v in subs), srepr(g))
    before = dict(d)
    s0 = struct(e)
    g = None
    with assumptions() as A:
        try:
            g = call("%s .%s(%s)" % (srepr(e), how, ", ".join("%s: %s" % (k, gen.show(v)) for k, v in subs)), lambda: getattr(e, how)(d))
        except Violation:
            if defined():
                raise
            return None
    for B in made:
        A.nonneg.update(B.nonneg)
        A.positive.update(B.positive)
        A.principal.update(B.principal)
        A.broken = A.broken or B.broken
    if not isinstance(g, Expr):
        raise Violation("not-an-expression", "%s returned %r" % (how, g))
    if struct(e) != s0 or list(d) != list(before) or any(d[k] is not before[k] for k in d):
        raise Violation("mutated", "%s changed the expression or the dictionary it was given: %s" % (how, what()))
    given = set()
    have = names_of(e)
    for k, v in subs:
        if k in have:
            gen.variables(v, given)
    if not names_of(g) <= (have - {k for k, _ in subs}) | given:
        raise Violation("leftover", "%s contains %s" % (what(), sorted(names_of(g) - ((have - {k for k, _ in subs}) | given))))
    if not (have & {k for k, _ in subs}):
        obs.add("nothing_to_replace")
        if how == "subs" and struct(g) != s0:
            raise Violation("changed-without-the-symbol", what())
    same = call("identity substitution", lambda: e.subs({n: X.Symbol(n) for n in names})) if defined() else None
    if same is not None and not inexact:
        with_id = judge(evaluator(e), evaluator(same), pts[:3], obs, None, inexact, lambda: "%s .subs(identity) = %s" % (srepr(e), srepr(same)), "identity")
        obs.add("identity_points", with_id)
    n = judge(ref, evaluator(g), pts, obs, A, inexact, what)
    if not names_of(g):
        obs.add("numeric_results")
    obs.add("with_" + how)
    for k, v in subs:
        obs.add("by_" + v[0])
    if n < (2 if names_of(g) else 1):
        return None
    return (gen.show(r), repr(subs), case["first"], how)


def graft(r, reps):
    if r[0] == "v":
        return reps.get(r[1], r)
    ks = gen.kids(r)
    return gen.with_kids(r, [graft(k, reps) for k in ks]) if ks else r


def small_powers(e, reps):
    """every constant power that arises is small"""
    try:
        env = {k: num.den(v, {}, num.FLOAT) if not gen.variables(v) else None for k, v in reps.items()}
    except (num.Undef, ArithmeticError, ValueError):
        return False  # a number that does not exist

    def value(t):
        names = names_of(t)
        if any(env.get(n) is None for n in names):
            return None
        try:
            return num.val(t, env, num.FLOAT)
        except (num.Undef, ArithmeticError, ValueError, num.Foreign):
            return "?"

    for t in nodes(e):
        if type(t).__name__ == "Power":
            x = value(t.exponent)
            if x == "?" or (x is not None and abs(x) > 60):
                return False
    return True


def shrink(case, fails):
    r = gen.shrink(gen.tup(case["r"]), lambda s: fails(dict(case, r=s)))
    case = dict(case, r=r)
    for j in range(len(case["subs"])):
        k, v = case["subs"][j]

        def put(s):
            ss = list(case["subs"])
            ss[j] = [k, s]
            return dict(case, subs=ss)

        case = put(gen.shrink(gen.tup(v), lambda s: fails(put(s))))
    return case


def describe(case):
    return "%s with %s" % (gen.show(gen.tup(case["r"])), ", ".join("%s := %s" % (k, gen.show(gen.tup(v))) for k, v in case["subs"]))
