"""C20 a pattern match is right, and is found"""
import itertools
import random
from fractions import Fraction

from .. import gen, num
from ..common import *
from ..core import Violation
from simpy import regex

ID = "C20"
RULE = (
    "a case is a query with up to two wildcards (or none), an expression (an instance of the query, perhaps times a factor and plus further terms, two instances, an instance of "
    "another query, anything) and whether to match up to a factor and up to a sum; when eq() reports a match, the query with what the wildcards matched "
    "put in (times the factor, plus the rest) is compared with the expression at sample points; when it reports none, the monitor's own position by position matcher "
    "must find none; it counts when one of the two was decided; distinct by expression, query and mode"
)
COUNT = {"quick": 30000, "thorough": 250000}
PROMPT = True  # no case takes seconds: one that does not end is a violation
MIN = {"quick": 6000, "thorough": 20000}
ASSUMPTIONS = ["up to a factor, only queries whose terms have coefficients 1 and -1 (the factor is the reciprocal one for others: the test suite fixes that)",
               "a product with two bare wildcards (one may be the factor) is refused by the library as ambiguous"]

x, y = X.Symbol("x"), X.Symbol("y")
s = lambda f, u: ("^", (f, u), gen.N(2))
n = gen.N
EX = lambda u: ("^", ("e",), u)
# (query, may be matched up to a factor)
Q = [
    lambda a, b: ("+", n(1), s("tan", a)), lambda a, b: ("-", n(1), s("sin", a)), lambda a, b: ("-", n(1), s("cos", a)), lambda a, b: ("-", s("sec", a), n(1)),
    lambda a, b: ("+", n(1), s("cot", a)), lambda a, b: ("-", s("csc", a), n(1)), lambda a, b: ("*", ("sin", a), ("sec", a)), lambda a, b: ("*", ("cos", a), ("csc", a)),
    lambda a, b: ("+", s("sin", a), s("cos", a)), lambda a, b: ("sin", a), lambda a, b: s("tan", a), lambda a, b: ("^", a, n(2)), lambda a, b: EX(a), lambda a, b: ("+", n(1), a),
    lambda a, b: ("*", gen.V("x"), a), lambda a, b: ("+", gen.V("x"), a), lambda a, b: ("+", a, b), lambda a, b: ("^", a, gen.V("y")), lambda a, b: ("*", ("sin", a), ("cos", b)),
    lambda a, b: ("+", ("sin", a), ("cos", b)), lambda a, b: ("+", ("sin", a), ("sin", b)), lambda a, b: ("*", a, ("sin", b)), lambda a, b: ("ln", a), lambda a, b: ("log", a, b),
    lambda a, b: ("sqrt", ("-", n(1), ("^", a, n(2)))), lambda a, b: ("/", n(1), ("+", n(1), ("^", a, n(2)))), lambda a, b: ("*", n(2), a), lambda a, b: ("sin", ("*", n(2), a)),
    lambda a, b: ("sin", ("+", a, n(1))), lambda a, b: a, lambda a, b: ("neg", s("sin", a)), lambda a, b: ("abs", a), lambda a, b: ("+", EX(a), EX(("neg", a))),
    lambda a, b: ("*", a, EX(a)), lambda a, b: ("*", ("sin", a), ("cos", a)), lambda a, b: ("+", a, ("^", a, n(2))),
    lambda a, b: ("+", ("^", gen.V("x"), n(2)), ("*", a, gen.V("x")), b), lambda a, b: ("*", ("^", gen.V("x"), a), ("sin", gen.V("x"))), lambda a, b: ("*", n(3), ("tan", a)),
    lambda a, b: ("*", n(-1), ("cos", a), ("sin", b)), lambda a, b: ("-", ("sin", a), ("cos", a)), lambda a, b: ("-", s("sin", a), s("sin", b)),
    lambda a, b: ("/", ("tan", a), n(2)), lambda a, b: ("+", s("sin", a), s("cos", b), ("sin", b)), lambda a, b: ("+", ("asin", a), ("acos", a)),
    lambda a, b: ("sin", ("cos", a)), lambda a, b: EX(("sin", a)), lambda a, b: ("log", ("sin", a), n(2)), lambda a, b: ("+", n(1), s("tan", a), ("sin", b)),
    lambda a, b: ("-", ("cos", ("+", a, b)), ("cos", a)), lambda a, b: ("^", ("sin", a), b), lambda a, b: ("^", n(2), ("sin", a)),
    # products with fixed factors of the same kind as the one with the wildcard
    lambda a, b: ("*", ("sin", a), ("sin", gen.V("x"))), lambda a, b: ("*", ("cos", a), ("cos", gen.V("y")), ("sin", gen.V("x"))), lambda a, b: ("*", s("sin", a), s("cos", gen.V("x"))),
    lambda a, b: ("*", ("ln", a), ("ln", gen.V("x")), gen.V("y")), lambda a, b: ("*", ("sin", gen.V("x")), ("sin", gen.V("y")), ("sin", a)),
    lambda a, b: ("+", ("*", ("sin", a), ("sin", gen.V("x"))), ("*", ("cos", b), ("cos", gen.V("x")))), lambda a, b: ("*", ("sin", ("*", n(2), a)), ("cos", a), ("tan", gen.V("y"))),
    lambda a, b: ("sin", ("*", ("cos", a), ("cos", gen.V("x")))), lambda a, b: ("*", s("tan", gen.V("x")), ("^", ("sin", gen.V("y")), n(3)), ("^", ("cos", a), n(2))),
    lambda a, b: ("*", ("asin", a), ("acos", gen.V("x")), ("asin", gen.V("y"))), lambda a, b: ("*", ("tan", a), ("sin", b), ("tan", gen.V("x"))),
]
COEFFICIENT = {26, 38, 42}
FACTORS = [n(1), n(1), n(2), n(-1), n(-3), n(2, 3), gen.V("k"), ("*", n(2), gen.V("k")), ("neg", gen.V("k")), ("sqrt", n(2)), ("pi",), ("sin", gen.V("k")), ("^", gen.V("k"), n(2))]
RESTS = [gen.V("w"), ("*", gen.V("w"), gen.V("k")), ("sin", gen.V("w")), ("^", gen.V("w"), n(2)), ("*", n(7), gen.V("w")), n(1), n(-1), n(5), ("sin", gen.V("x")), s("sin", gen.V("x")),
         s("cos", gen.V("y")), s("tan", gen.V("y")), gen.V("x"), ("*", n(-2), s("sin", gen.V("z")))]


def arg(rng):
    while True:
        r = gen.recipe(rng, rng.choice(["alg", "trig", "rad"]), rng.choice([0, 1, 1, 2])) if rng.random() < 0.6 else rng.choice(
            [gen.V("x"), gen.V("y"), ("*", n(2), gen.V("x")), ("+", gen.V("x"), n(1)), ("*", gen.V("x"), gen.V("y")), n(1), n(2), ("sqrt", gen.V("x"))])
        if gen.tame(("^", r, n(4))):
            return r


def make(rng, i, tier):
    q = rng.randrange(len(Q))
    a, b = arg(rng), arg(rng) if rng.random() < 0.8 else None
    b = b or a
    c = rng.random()
    f = rng.random() < 0.45 and q not in COEFFICIENT
    sum_ = rng.random() < 0.5
    if c < 0.5:
        e = Q[q](a, b)
    elif c < 0.62:
        e = Q[rng.randrange(len(Q))](a, b)
    elif c < 0.8:
        p, r = Q[q](a, b), Q[q](arg(rng), arg(rng))
        ks = [t for u in (p, r) for t in (u[1:] if u[0] == "+" else [u])]
        if rng.random() < 0.5 and len(ks) > 2:
            ks.pop(rng.randrange(len(ks)))
        rng.shuffle(ks)
        e = ("+",) + tuple(ks)
    elif c < 0.9:
        # one thing too many or too few
        e = Q[q](a, arg(rng))
        e = ("+", e, rng.choice(RESTS))
    else:
        e = gen.recipe(rng, rng.choice(["alg", "trig", "full"]), 2)
    k = rng.choice(FACTORS) if f or rng.random() < 0.1 else n(1)
    rest = [rng.choice(RESTS) for _ in range(rng.randint(1, 3))] if sum_ and rng.random() < 0.8 else []
    return {"q": q, "e": e, "k": k, "rest": rest, "f": f, "sum": sum_, "wild": rng.choice(["any", "any", "named", "none"]), "swap": rng.random() < 0.25, "a": a, "b": b,
            "s": rng.getrandbits(40)}


def whole(case):
    e, k = gen.tup(case["e"]), gen.tup(case["k"])
    if k != n(1):
        e = ("+",) + tuple(("*", k, t) for t in e[1:]) if e[0] == "+" else ("-", ("*", k, e[1]), ("*", k, e[2])) if e[0] == "-" else ("*", k, e)
    return ("+", e) + tuple(gen.tup(t) for t in case["rest"]) if case["rest"] else e


def wild(r, env):
    """build a query recipe in which ("v", "?a") and ("v", "?b") are the wildcards in env"""
    if r[0] == "v" and r[1] in env:
        return env[r[1]]
    ks = [wild(k, env) for k in gen.kids(r)]
    op = r[0]
    if op == "+":
        return X.Sum(ks)
    if op == "-":
        return X.Sum([ks[0], -ks[1]])
    if op == "*":
        return X.Prod(ks)
    if op == "/":
        return ks[0] / ks[1]
    if op == "^":
        return ks[0] ** ks[1]
    if op == "neg":
        return -ks[0]
    if op == "sqrt":
        return X.sqrt(ks[0])
    if op == "ln":
        return X.log(ks[0])
    if op == "log":
        return X.log(ks[0], ks[1])
    if op == "abs":
        return X.Abs(ks[0])
    if op in num.FUNCS:
        return getattr(X, op)(ks[0])
    return gen.build(r)


def unify(e, q, found, factor=False):
    """position by position; all wildcards must agree.  A product with fixed factors and one factor with wildcards: in any order"""
    if type(q).__name__ == "Any_":
        if q.key in found:
            return struct(found[q.key]) == struct(e)
        found[q.key] = e
        return True
    if type(e) is not type(q):
        return False
    ks, js = kids_of(q), kids_of(e)
    if not ks:
        return struct(e) == struct(q)
    if len(ks) != len(js):
        return False
    inside = factor or type(q).__name__ == "Prod"
    trial = dict(found)
    if all(unify(j, k, trial, inside) for j, k in zip(js, ks)):
        found.update(trial)
        return True
    if type(q).__name__ != "Prod" or factor:
        return False
    left, open_ = [(struct(j), j) for j in js], []
    for k in ks:
        if any(type(t).__name__ == "Any_" for t in nodes(k)):
            open_.append(k)
            continue
        at = [i for i, (u, _) in enumerate(left) if u == struct(k)]
        if not at:
            return False
        left.pop(at[0])
    return len(open_) == 1 and len(left) == 1 and unify(left[0][1], open_[0], found, True)


def own_match(e, q, sum_):
    if not sum_:
        return unify(e, q, {})

    def go(i, used, found):
        if i == len(q.terms):
            return True
        for j, t in enumerate(e.terms):
            if j not in used:
                f = dict(found)
                if unify(t, q.terms[i], f) and go(i + 1, used | {j}, f):
                    return True
        return False

    return go(0, frozenset(), {})


def ambiguous(q, factor):
    """some product in the query has more than one bare wildcard, counting the factor"""
    if factor:
        for t in q.terms if type(q).__name__ == "Sum" else [q]:
            if any(type(u).__name__ == "Any_" for u in (t.terms if type(t).__name__ == "Prod" else [t])):
                return True
    return any(type(t).__name__ == "Prod" and sum(type(u).__name__ == "Any_" for u in t.terms) > 1 for t in nodes(q))


def fill(q, found, env, F):
    """the value of a query whose wildcards have matched something"""
    from .c21 import swapped
    return swapped(q, lambda t: (lambda _: num.val(found[t.key], env, F)) if type(t).__name__ == "Any_" else None, F, env, None)


def run(case, obs):
    r = whole(case)
    names = sorted(gen.variables(r) | gen.variables(gen.tup(case["a"])) | gen.variables(gen.tup(case["b"])))
    pts = envs(case["s"], names, 8)
    if not gen.tame(r) or not defined_somewhere(r, pts):
        return None
    e = build(r, "op", pts)
    if e is None or tree_size(e) > 90:
        return None
    if case["f"]:
        if blowup(e) > 60:
            return None
        e = call("expand", e.expand) if e.expandable() else e
    if any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN", "Float") for t in nodes(e)):
        return None
    if case["wild"] == "none":
        W = {"?a": build(gen.tup(case["a"]), "op", pts), "?b": build(gen.tup(case["b"]), "op", pts)}
        if None in W.values():
            return None
    elif case["wild"] == "any":
        W = {"?a": regex.any_, "?b": regex.Any_("other")}
    else:
        W = {"?a": regex.Any_(["a", "x", "first", "1"][case["s"] % 4]), "?b": regex.Any_("b")}
    qr = Q[case["q"]](gen.V("?a"), gen.V("?b"))
    q = call("building the query", lambda: wild(qr, W)) if case["wild"] != "none" else guarded("building", lambda: wild(qr, W), Q[case["q"]](gen.tup(case["a"]), gen.tup(case["b"])), pts)
    if q is None or any(type(t).__name__ in ("Infinity", "NegInfinity", "NaN", "Float") for t in nodes(q)):
        return None
    f, sum_ = case["f"], case["sum"]
    if sum_ and not (type(e).__name__ == type(q).__name__ == "Sum"):
        sum_ = False
    wilds = {t.key for t in nodes(q) if type(t).__name__ == "Any_"}
    kw = dict(up_to_factor=f, up_to_sum=sum_)
    what = "eq(%s, %s%s%s)" % (srepr(e), srepr(q), ", up_to_factor=True" if f else "", ", up_to_sum=True" if sum_ else "")
    if not wilds and f:
        return None
    if type(e).__name__ == "Rat" and e.value == 0:
        return None
    before = struct(e), struct(q)
    ask = (lambda: regex.eq(q, e, **kw)) if case["swap"] and wilds else (lambda: regex.eq(e, q, **kw))
    try:
        m = call(what, ask, NotImplementedError)
    except NotImplementedError:
        if ambiguous(q, f):
            obs.add("ambiguous_queries_refused")
            return None
        raise Violation("refused", what + " raised NotImplementedError")
    if (struct(e), struct(q)) != before:
        raise Violation("mutated", what + " changed an argument")
    ok = m["success"]
    if ok is not True and ok is not False:
        raise Violation("answer", "%s: success is %r" % (what, ok))
    if not wilds and not sum_:
        if ok is not (struct(e) == struct(q)) and ok is not bool(e == q):
            raise Violation("no-wildcards", "%s is %s" % (what, ok))
        obs.add("without_wildcards")
        return what
    if not ok:
        if not f and own_match(e, q, sum_):
            raise Violation("missed", "%s finds nothing" % what)
        if f and sum_ and case["q"] in (0, 1, 2, 3, 4, 5) and own_match(e, q, sum_):
            raise Violation("missed", "%s finds nothing" % what)
        obs.add("no_match")
        return what
    found = m["matches"]
    if not isinstance(found, dict):
        if len(wilds) != 1:
            raise Violation("wildcards", "%s reports one match, %s" % (what, srepr(found)))
        found = {next(iter(wilds)): found}
    if set(found) != wilds:
        raise Violation("wildcards", "%s reports matches for %s" % (what, sorted(found)))
    parts = list(found.values()) + ([m["factor"]] if f else []) + ([m["rest"]] if sum_ else [])
    for t in parts:
        if not isinstance(t, Expr) or any(type(u).__name__ == "Any_" for u in nodes(t)):
            raise Violation("parts", "%s: a part of the match is %r" % (what, t))
    if sum_:
        have = [struct(t) for t in e.terms]
        for t in m["rest"].terms if type(m["rest"]).__name__ == "Sum" else [m["rest"]]:
            if struct(t) not in have and struct(t) != ("Rat", 0, 1):
                raise Violation("rest", "%s: the rest is %s" % (what, srepr(m["rest"])))

    def value(env, F):
        v = fill(q, found, env, F)
        if f:
            v = v * num.val(m["factor"], env, F)
        if sum_:
            v = v + num.val(m["rest"], env, F)
        return F.check(v)

    k = judge(evaluator(e), value, pts, obs, None, False, lambda: "%s found %s%s%s" % (
        what, {a: srepr(b) for a, b in sorted(found.items())}, ", factor " + srepr(m["factor"]) if f else "", ", rest " + srepr(m["rest"]) if sum_ else ""))
    obs.add("matches")
    obs.add("matches_factor%d_sum%d" % (f, sum_))
    return what if k >= (2 if names_of(e) else 1) else None


def shrink(case, fails):
    case = dict(case, e=gen.shrink(gen.tup(case["e"]), lambda t: fails(dict(case, e=t))))
    while case["rest"] and fails(dict(case, rest=case["rest"][1:])):
        case = dict(case, rest=case["rest"][1:])
    return case


def describe(case):
    return "match %s with %s" % (gen.show(whole(case)), gen.show(Q[case["q"]](gen.V("?a"), gen.V("?b"))))
