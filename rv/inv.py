"""Invariants of a canonical expression tree, checked node by node.  Reads only the fields of the tree."""
from .common import nodes, struct

NUM = ("Rat", "Float", "Infinity", "NegInfinity")


def tn(e):
    return type(e).__name__


def is_rat(e, *vals):
    return tn(e) == "Rat" and (not vals or e.value in vals)


def monomial(t):
    """what is left of a term without its numeric factors"""
    if tn(t) == "Prod":
        return tuple(struct(u) for u in t.terms if tn(u) not in NUM)
    return (struct(t),)


def leading_minus(e):
    """would be printed with a leading minus"""
    n = tn(e)
    if n in NUM:
        return e.value < 0
    if n == "Prod":
        return is_rat(e.terms[0]) and e.terms[0].value < 0
    if n == "Sum":
        return all(leading_minus(t) for t in e.terms)
    return False


def broken(e):
    """the first broken invariant and the node it is broken at, or None"""
    for t in nodes(e):
        w = _broken(t)
        if w:
            return w, t
    return None


def _broken(t):
    n = tn(t)
    if n in ("Sum", "Prod"):
        if len(t.terms) < 2:
            return "a %s of fewer than two terms" % n
        if any(tn(u) == n for u in t.terms):
            return "a %s directly inside a %s" % (n, n)
        if sum(tn(u) in NUM for u in t.terms) > 1:
            return "two numbers in one %s" % n
    if n == "Sum":
        if any(is_rat(u, 0) for u in t.terms):
            return "a zero term"
        k = [monomial(u) for u in t.terms]
        if len(set(k)) < len(k):
            return "uncollected like terms"
    elif n == "Prod":
        if any(is_rat(u, 0, 1) for u in t.terms):
            return "a factor 0 or 1"
        # (a rational factor may stay next to a root of the same rational: 2/sqrt(2))
        k = [struct(u.base) if tn(u) == "Power" else struct(u) for u in t.terms if not is_rat(u)]
        if len(set(k)) < len(k):
            return "uncollected equal bases"
        if len(t.terms) == 2 and is_rat(t.terms[0], -1) and tn(t.terms[1]) == "Sum":
            return "-1 times a sum"
    elif n == "Power":
        b, x = t.base, t.exponent
        if is_rat(x, 0, 1):
            return "an exponent 0 or 1"
        if is_rat(b, 0, 1) or is_rat(b) and is_rat(x) and x.value.denominator == 1:
            return "an unevaluated power of a number"
        if tn(b) == "Power":
            return "a power of a power"
        if tn(b) == "Prod" and not leading_minus(b):
            return "a power of a product"
        if is_rat(x) and x.value.denominator == 1 and leading_minus(b):
            return "an integer power of a negated base"
    elif n in ("sin", "cos", "tan"):
        if leading_minus(t.inner):
            return "%s of a negated argument" % n
    elif n == "Abs":
        if leading_minus(t.inner) or tn(t.inner) in NUM:
            return "the absolute value of a number or of a negated argument"
    elif n == "log":
        if struct(t.inner) == struct(t.base) or is_rat(t.inner, 1):
            return "an unevaluated logarithm"
    return None
