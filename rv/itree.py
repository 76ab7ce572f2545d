"""Watching the integrator: the tree of sub-problems it builds, read after the fact through the
`Integration.logger` hook the library offers, and what each step of it claims.

Nothing here relies on which transform made a step.  A step from a node to one of its children is
read off the step itself: pushing the solutions 1 and t back through it gives c and c*u(x), so the
step claims that  node.expr(x) = c * child.expr(u(x)) * u'(x).
"""
import contextlib

from . import num
from .load import mp  # noqa: F401
from simpy import expr as X
from simpy import integration as I
from simpy import transforms as T


class Sink:
    def __init__(self):
        self.roots = []

    def log(self, expr, time_spent, root):
        self.roots.append((expr, time_spent, root))


@contextlib.contextmanager
def watching():
    """collect the root node of every integration that runs inside"""
    sink = Sink()
    old = I.Integration.__dict__.get("logger")
    I.Integration.logger = sink
    try:
        yield sink
    finally:
        I.Integration.logger = old


class Step:
    __slots__ = ("node", "child", "c", "cu", "how")

    def __init__(self, node, child, c, cu):
        self.node, self.child, self.c, self.cu = node, child, c, cu
        self.how = type(child.transform).__name__


def read_step(node, child):
    """(c, c*u) with u written in node.var"""
    def push(solution):
        parent = T.Node(node.expr, node.var)
        ch = T.Node(child.expr, child.var, child.transform, parent, solution=solution)
        child.transform.backward(ch)
        return parent.solution

    return Step(node, child, push(X.Rat(1)), push(child.var))


def walk(root):
    """every node of the tree, parents first, with the list of steps that leads to it"""
    stack = [(root, ())]
    while stack:
        node, path = stack.pop()
        yield node, path
        for ch in node.children:
            if ch.is_filler or node.is_filler or node.type == "AND":
                p = path if ch.var == node.var else None
            else:
                p = path + (read_step(node, ch),) if path is not None else None
            stack.append((ch, p))


def extend(env, path, F):
    """env (floats or mp numbers) with the values of the intermediate variables along a path"""
    env = dict(env)
    for s in path:
        if s.child.var.name != s.node.var.name:
            c = num.val(s.c, env, F)
            env[s.child.var.name] = num.val(s.cu, env, F) / c
    return env


def u_of(step):
    """evaluator for u(x) of a step"""
    def u(env, F):
        return num.val(step.cu, env, F) * num._reciprocal(num.val(step.c, env, F), F)
    return u


def right_side(step):
    """c * child.expr(u(x)) * u'(x) as an evaluator"""
    u = u_of(step)
    du = num.derivative(u, step.node.var.name)

    def rhs(env, F):
        if step.child.var.name == step.node.var.name:
            return F.check(num.val(step.c, env, F) * num.val(step.child.expr, env, F))
        e2 = dict(env)
        e2[step.child.var.name] = u(env, F)
        return F.check(num.val(step.c, env, F) * num.val(step.child.expr, e2, F) * du(env, F))

    return rhs


def trig_branch(step, env):
    """for a substitution u = sin(v) or u = cos(v) done through du/sqrt(1 - u^2): the sign of the derivative
    that the square root takes to be positive (finding D7); None for any other step"""
    if step.child.var.name == step.node.var.name:
        return None
    e = step.cu
    if type(e).__name__ not in ("sin", "cos"):
        return None
    v = num.val(e.inner, env, num.FLOAT)
    return num.math.cos(v) if type(e).__name__ == "sin" else num.math.sin(v)


def spoints(seed, names, k, var="x"):
    """sample points with a wider spread for the integration variable"""
    import random
    from fractions import Fraction
    from . import gen

    rng = random.Random(seed)
    out = []
    for j in range(k):
        p = gen.rpoint(rng, names)
        if j % 3 == 1:
            p[var] = Fraction(rng.randint(30, 12000), 997) * rng.choice([1, -1])
        elif j % 3 == 2:
            p[var] = Fraction(rng.randint(20, 1950), 997) * rng.choice([1, 1, -1])
        out.append(p)
    return out


def check_steps(node, path, pts, A, obs, judge_step):
    """compare both sides of every step that leaves a node; judge_step(step or kind, fa, fb, points) decides"""
    if node.is_filler or path is None or not node.children:
        return 0
    from fractions import Fraction

    here = []
    for p in pts:
        try:
            ef = extend(num.envf(p), path, num.FLOAT)
            here.append({k: Fraction(v) for k, v in ef.items()})
        except (num.Undef, ArithmeticError, ValueError, num.Foreign):
            continue
    lhs = lambda env, F: num.val(node.expr, env, F)
    n = 0
    if node.type == "AND":
        kids = node.children
        rhs = lambda env, F: F.check(sum((num.val(k.expr, env, F) for k in kids), F.rat(Fraction(0))))
        n += judge_step("Additivity", node, None, lhs, rhs, here)
        return n
    for ch in node.children:
        if ch.is_filler and ch.type == "SOLUTION" and not ch.children:
            # integration by parts came back to its own integrand: a whole solution (or one half of a loop)
            loop = looped(node)
            if loop:
                obs.add("steps_closing_a_loop")
                continue
            rhs = num.derivative(lambda env, F: num.val(ch.solution, env, F), node.var.name)
            n += judge_step("ByParts-solved", node, ch, lhs, rhs, here)
        elif ch.is_filler:
            if has_loop(ch):
                obs.add("steps_closing_a_loop")
                continue
            uv, rest = ch.children[0], ch.children[1:]
            duv = num.derivative(lambda env, F: num.val(uv.solution, env, F), node.var.name)
            rhs = lambda env, F: F.check(duv(env, F) + sum((num.val(k.expr, env, F) for k in rest), F.rat(Fraction(0))))
            n += judge_step("ByParts", node, ch, lhs, rhs, here)
        else:
            s = read_step(node, ch)
            if ch.var.name != node.var.name:
                from .common import names_of, srepr
                from .core import Violation

                if node.var.name in names_of(ch.expr):
                    raise Violation("half-substituted", "%s turned %s (d%s) into %s (d%s)" % (
                        s.how, srepr(node.expr), node.var.name, srepr(ch.expr), ch.var.name))
            n += judge_step(s.how, node, s, lhs, right_side(s), here)
    return n


def looped(node):
    """is there an integration by parts above this node, with only constants pulled out in between?"""
    while node is not None:
        if node.is_filler:
            return True
        node = node.parent
    return False


def has_loop(filler):
    """does a SOLUTION made by integration by parts hang below this integration by parts?"""
    stack = list(filler.children[1:])
    while stack:
        n = stack.pop()
        if n.is_filler and n.type == "SOLUTION" and n.parent is not None and not n.parent.is_filler:
            return True
        stack.extend(n.children)
    return False
