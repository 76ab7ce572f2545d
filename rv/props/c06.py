"""C06 an answer depends only on the question: not on what was computed before, nor on chance"""
import contextlib
import random
import time
import warnings

from .. import families, gen, integrands
from ..common import *
from ..core import Timeout, Violation
from ..zygote import Zygote
import simpy
from simpy import integration, polynomial as P, regex, simplify as S

ID = "C06"
RULE = (
    "a case is a program of 10-30 questions (build, simplify, expand, factor, diff, integrate by one of several variables, definite "
    "integral, subs, evalf, print, LaTeX, symbols, equality, pattern match, replace, polynomial) about expressions shared between the "
    "questions and with the rest of the run, and 24 short questions (functions of special arguments, several questions about one expression); every answer given by the long-lived process is compared with the one given by a process "
    "forked before anything was computed, which builds its own copy and is asked only this question, with another random state; some are asked again "
    "at the end; it counts when at least 4 answers were compared"
)
COUNT = {"quick": 280, "thorough": 3600}
ENDS = False  # integrations may take long; C14 watches them
MIN = {"quick": 140, "thorough": 900}
SLOW = 1.6  # CPU seconds after which the built-in time limit of integrate() may have decided
ASSUMPTIONS = ["an integral on which more than %.1f s of CPU time was spent is not compared, as the search stops after 2 s" % SLOW]

UN = [("simplify", 3), ("expand", 3), ("factor", 2), ("diff", 3), ("integrate", 4), ("subs", 3), ("neg", 1), ("fraction", 1),
      ("logs", 1), ("square", 2), ("inverse", 1), ("fn", 2), ("definite", 1), ("replace", 1)]
END = [("same", 4), ("evalf", 2), ("symbols", 1), ("equal", 2), ("match", 3), ("poly", 2), ("count", 1), ("nest", 1), ("plus", 2), ("times", 2)]
VARS = ("x", "x", "x", "y", "z", "t")


def make(rng, i, tier):
    rs = []
    for _ in range(rng.randint(2, 4)):
        c = rng.random()
        if c < 0.35:
            rs.append(gen.recipe(rng, rng.choice(["alg", "rad", "full", "trig"]), rng.choice([1, 2, 2, 3])))
        elif c < 0.75:
            r = integrands.make(rng, rng.choice(integrands.NAMES))
            if rng.random() < 0.5:
                r = ("*", r, ("v", "y")) if rng.random() < 0.5 else ("+", r, families.member(rng)[1])
            rs.append(r)
        else:
            rs.append(families.member(rng)[1])
    prog = []
    if rng.random() < 0.4:
        # mirror images: the same problem by another variable
        r = integrands.make(rng, "symbolic")
        if {"x", "y"} <= gen.variables(r):
            rs += [r, mirror(r)]
            ends = [["same", "x", 0], ["evalf", "x", 0]]
            pair = [[len(rs) - 2, [["integrate", "x", 1]], rng.choice(ends)], [len(rs) - 1, [["integrate", "y", 1]], rng.choice(ends)],
                    [len(rs) - 2, [["integrate", "y", 1]], rng.choice(ends)]]
            rng.shuffle(pair)
            prog += pair
    for _ in range(rng.randint(10, 22) - len(prog)):
        # chains share prefixes, so that later questions meet objects that were used before
        if prog and rng.random() < 0.5:
            j, path, _ = rng.choice(prog)
            path = path[:rng.randint(0, len(path))]
        else:
            j, path = rng.randrange(len(rs)), []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if len(path) < 3:
                path = path + [[gen.choose(rng, UN), rng.choice(VARS), rng.randrange(12)]]
        prog.append([j, path, [gen.choose(rng, END), rng.choice(VARS), rng.randrange(12)]])
    if rng.random() < 0.5:
        rng.shuffle(prog)
    return {"rs": rs, "prog": prog, "s": rng.getrandbits(40), **short(rng)}


NAMES = ("x", "x1", "x2", "y", "u")
FUNCS = ("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "Abs", "sqrt")


def short(rng):
    """short questions: functions of special arguments, and several questions about one expression with similar names in it"""
    from .c11 import swapped
    objs = []
    for _ in range(4):
        r = gen.recipe(rng, rng.choice(["alg", "rad", "full", "trig"]), rng.choice([1, 2, 2]))
        objs.append(swapped(r, dict(zip(("x", "y", "z"), rng.sample(NAMES, 3)))))
    qs = []
    for _ in range(24):
        if rng.random() < 0.5:
            c = rng.random()
            a = (("n", 0, 1) if c < 0.3 else ("*", ("n", rng.randint(-24, 48), 12), ("pi",)) if c < 0.6 else
                 ("n", rng.choice([1, -1, 2, 1]), rng.choice([1, 1, 2])) if c < 0.75 else
                 ("+", ("v", "x"), ("*", ("n", rng.randint(-4, 4), 1), ("pi",))) if c < 0.9 else ("v", rng.choice(NAMES)))
            qs.append(["fn", rng.choice(FUNCS), a])
        else:
            qs.append([rng.choice(["nest", "nest", "contains", "diff", "diff", "subs", "evalf", "symbols", "latex", "repr", "has", "poly"]),
                       rng.randrange(len(objs)), rng.choice(NAMES)])
    return {"objs": objs, "qs": qs}


def small(q, objs, recipes):
    k, j, v = q
    try:
        if k == "fn":
            f = getattr(X, j)
            return repr(struct(f(gen.build(gen.tup(v)))))
        e = objs[j] if objs else gen.build(gen.tup(recipes[j]))
        if e is None:
            return "-"
        s = X.Symbol(v)
        if k == "nest":
            return X.nesting(e, s)
        if k == "contains":
            return e.contains(s)
        if k == "diff":
            return repr(struct(e.diff(s)))
        if k == "subs":
            return repr(struct(e.subs({v: X.Rat(1, 3)})))
        if k == "evalf":
            return repr(struct(e.evalf({v: 0.75})))
        if k == "symbols":
            return sorted(t.name for t in e.symbols())
        if k == "latex":
            return e.latex()
        if k == "repr":
            return repr(e)
        if k == "has":
            return [e.has(c) for c in (X.Power, X.sin, X.log, X.Prod)]
        if k == "poly":
            return P.is_polynomial(e, s)
    except (Timeout, MemoryError):
        raise
    except RecursionError:
        return "-"
    except Exception as ex:
        return "raised " + type(ex).__name__


def short_questions(case, z, rng, obs):
    """asked here, of objects that are shared, and in the opposite order in a fresh process, of an object each"""
    objs = [build(gen.tup(r), "op", envs(case["s"], list(NAMES), 2)) for r in case["objs"]]
    qs = [q for q in case["qs"] if q[0] == "fn" or objs[q[1]] is not None and tree_size(objs[q[1]]) < 60 and blowup(objs[q[1]]) < 60]
    rng.shuffle(qs)
    a = [small(q, objs, None) for q in qs]
    b = z.ask({"small": qs[::-1], "recipes": case["objs"]}, rng.getrandbits(30))
    if b is None:
        obs.add("no_fresh_answer")
        return
    for q, u, w in zip(qs, a, b[::-1]):
        u, w = norm(u), norm(w)
        if "-" in (u, w):
            continue
        obs.add("short_questions")
        if u != w:
            what = "%s(%s)" % (q[1], gen.show(gen.tup(q[2]))) if q[0] == "fn" else "%s of %s by %s" % (q[0], gen.show(gen.tup(case["objs"][q[1]])), q[2])
            raise Violation("depends-on-history", "%s: in a process that had computed other things before: %.300s; in a fresh process: %.300s" % (what, u, w))


def mirror(r):
    if r[0] == "v":
        return ("v", {"x": "y", "y": "x"}.get(r[1], r[1]))
    ks = gen.kids(r)
    return gen.with_kids(r, [mirror(k) for k in ks]) if ks else r



class Skip(Exception):
    pass


def limited(e, n=90, b=120):
    if tree_size(e, 400) > n or blowup(e) > b or e.has(regex.Any_):
        raise Skip()
    for t in nodes(e):
        if type(t).__name__ == "Power" and type(t.exponent).__name__ in ("Rat", "Float") and abs(t.exponent.value) > 8:
            raise Skip()
    return e


def one(e, op, world):
    """the next expression of a chain"""
    k, v, d = op
    sym = X.Symbol(v)
    if k == "simplify":
        return limited(e, 70, 60).simplify()
    if k == "expand":
        return e.expand() if e.expandable() else e
    if k == "factor":
        return e.factor() if type(e).__name__ == "Sum" else e
    if k == "diff":
        return e.diff(sym)
    if k in ("integrate", "definite"):
        limited(e, 50, 40)
        t0 = time.process_time()
        kw = {"breadth_first": True} if d == 0 else {}
        b = sym if k == "integrate" else (sym, X.Rat(d % 3 - 1), [X.Rat(2), X.pi, X.Symbol("a"), X.Rat(1)][d % 4])
        a = integration.integrate(e, b, **kw)
        if time.process_time() - t0 > SLOW:
            raise Skip()
        if a is None:
            world["none"] = True
            raise ValueError("unsolved")
        return a
    if k == "subs":
        return e.subs([{"x": X.Symbol("y")}, {"x": 2}, {"y": X.Symbol("x")}, {"x": X.Symbol("x") + 1}, {"x": X.sin(X.Symbol("x"))},
                       {"x": X.Rat(1, 2), "y": 3}, {"x": X.Symbol("y"), "y": X.Symbol("x")}][d % 7])
    if k == "neg":
        return -e
    if k == "fraction":
        return S.rewrite_as_one_fraction(e) if hasattr(S, "rewrite_as_one_fraction") else e.simplify()
    if k == "logs":
        return S.expand_logs(e)
    if k == "square":
        return e**2
    if k == "inverse":
        return 1 / e
    if k == "fn":
        return [X.sin, X.cos, X.tan, X.log, X.sqrt, X.Abs, X.atan][d % 7](e)
    if k == "replace":
        return regex.replace(e, X.Symbol("x"), [X.Symbol("y"), X.Rat(2), X.Symbol("x") ** 2][d % 3])
    raise ValueError(k)


def answer(e, op):
    k, v, d = op
    sym = X.Symbol(v)
    if k == "same":
        return None
    if k == "evalf":
        a = e.evalf({"x": [0.7, 1.3][d % 2], "y": 0.4, "z": 1.9, "t": 0.2})
        return [repr(struct(a))]
    if k == "symbols":
        return [sorted(s.name for s in e.symbols()), e.contains(sym), e.has(X.Power), e.has(X.sin)]
    if k == "equal":
        o = [sym, e + 0, X.Rat(d), e * 1, X.sin(sym), e.expand() if e.expandable() else e][d % 6]
        return [e == o, o == e, e != o]
    if k == "match":
        A = regex.any_
        q = [X.sin(A), 1 + A, X.e**A, A**2, 1 - X.sin(A) ** 2, 1 + X.tan(A) ** 2, A * sym, A][d % 8]
        m = regex.eq(e, q, up_to_factor=bool(d % 2))
        if not m["success"]:
            return [False]
        found = m["matches"]
        found = sorted((repr(struct(t)) for t in found.values())) if isinstance(found, dict) else repr(struct(found))
        return [True, found, repr(struct(m["factor"])) if d % 2 else ""]
    if k == "poly":
        if not P.is_polynomial(e, sym):
            return [False]
        return [repr([struct(t) for t in P.to_const_polynomial(e, sym)])]
    if k == "count":
        return [regex.count(e, sym), regex.count(e, X.Rat(2))]
    if k == "nest":
        return [X.nesting(e), X.nesting(e, sym)]
    if k == "plus":
        return [repr(struct(e + [sym, X.Rat(d), e, X.sin(sym)][d % 4]))]
    if k == "times":
        return [repr(struct(e * [sym, X.Rat(d + 1), e, sym + 1, 1 / e][d % 5]))]
    raise ValueError(k)


def text(e, how):
    try:
        return how(e)
    except Exception as ex:
        return "raised " + type(ex).__name__


def question(e, rest, end, world, memo=None, key=None):
    """answers as JSON-able data; an exception is an answer as well"""
    try:
        for n, op in enumerate(rest):
            kk = (key, repr(rest[:n + 1]))
            if memo is not None and kk in memo:
                e = memo[kk]
                continue
            e = one(limited(e), op, world)
            if memo is not None:
                memo[kk] = e
        a = answer(limited(e), end)
    except (Timeout, MemoryError, Skip):
        raise
    except RecursionError:
        raise Skip()
    except Exception as ex:
        return ["raised", type(ex).__name__]
    return ["expr", repr(struct(e)), text(e, repr), text(e, lambda t: t.latex()), a]


@contextlib.contextmanager
def slow_clock(factor=8):
    real = time.time
    t0 = real()
    time.time = lambda: t0 + (real() - t0) / factor
    try:
        yield
    finally:
        time.time = real


def fresh(data):
    if "small" in data:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [small(q, None, data["recipes"]) for q in data["small"]]
    with warnings.catch_warnings(), slow_clock():
        warnings.simplefilter("ignore")
        try:
            e = gen.build(gen.tup(data["r"]))
            return question(e, data["path"], data["end"], {})
        except Skip:
            return ["skip"]


ZYGOTE = []
POOL = {}  # expressions that outlive a case


def run(case, obs):
    if not ZYGOTE:
        ZYGOTE.append(Zygote(fresh))
    z = ZYGOTE[0]
    rng = random.Random(case["s"])
    pts = envs(case["s"], ["t", "x", "y", "z"], 2)
    objs = []
    for r in case["rs"]:
        k = repr(gen.tup(r))
        if k in POOL:
            e = POOL[k]
            obs.add("used_again_in_a_later_case")
        else:
            e = build(gen.tup(r), "op", pts)
            if e is not None and len(POOL) < 400:
                POOL[k] = e
        objs.append(e)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        short_questions(case, z, rng, obs)
    memo = {}
    compared = 0
    asked = []
    with warnings.catch_warnings(), slow_clock():
        warnings.simplefilter("ignore")
        for n, (j, path, end) in enumerate(case["prog"]):
            if objs[j] is None:
                continue
            world = {}
            try:
                w = question(objs[j], path, end, world, memo, j)
            except Skip:
                obs.add("skipped")
                continue
            obs.add("warm_answers")
            asked.append((j, path, end, w))
        # the last ones have the longest history
        want = asked[-4:] + rng.sample(asked, min(3, len(asked)))
        mirrored = [q for q in asked if q[0] >= len(case["rs"]) - 2 and any(o[0] == "integrate" and o[2] == 1 for o in q[1])]
        want += rng.sample(mirrored, min(2, len(mirrored)))
        for j, path, end, w in want:
            random.seed(rng.getrandbits(30))
            f = z.ask({"r": case["rs"][j], "path": path, "end": end}, rng.getrandbits(30))
            if f is None or f == ["skip"]:
                obs.add("no_fresh_answer")
                continue
            compared += 1
            obs.add("compared")
            obs.add("compared_" + end[0])
            for op in path:
                obs.add("through_" + op[0])
            differ("in a process that had computed other things before", w, "in a fresh process", f, case, j, path, end)
        # asking again
        for j, path, end, w in rng.sample(asked, min(3, len(asked))):
            random.seed(rng.getrandbits(30))
            try:
                e = gen.build(gen.tup(case["rs"][j]))
                v = question(e, path, end, {})
            except Skip:
                continue
            compared += 1
            obs.add("asked_again")
            differ("the first time", w, "the second time", v, case, j, path, end)
    if compared < 4:
        return None
    return (repr(case["rs"]), repr(case["prog"]))


def differ(n1, a, n2, b, case, j, path, end):
    a, b = norm(a), norm(b)
    if a != b:
        i = [k for k in range(min(len(a), len(b))) if a[k] != b[k]]
        i = i[0] if i else 0
        raise Violation("depends-on-history", "%s -> %s -> %s: %s: %.300s; %s: %.300s" % (
            gen.show(gen.tup(case["rs"][j])), " ".join("%s(%s,%d)" % tuple(o) for o in path), end, n1, a[i], n2, b[i]))


def norm(a):
    import json
    return json.loads(json.dumps(a))


def shrink(case, fails):
    prog = case["prog"]
    i = len(prog) - 1
    while i >= 0:
        t = prog[:i] + prog[i + 1:]
        if t and fails(dict(case, prog=t)):
            prog = t
        i -= 1
    return dict(case, prog=prog)


def describe(case):
    return "%s then %d questions" % ([gen.show(gen.tup(r)) for r in case["rs"]], len(case["prog"]))
