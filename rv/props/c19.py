"""C19 what latex() prints reads back as the same value"""
from .. import printing, reading
from ..common import *
from ..core import Violation

import simpy

ID = "C19"
RULE = (
    "a case is an expression (random, built to put every kind of number, sign, fraction, power, function and name in every position, or the result of "
    "an operation) whose LaTeX is read back by an independent reader that follows TeX's rules (a command takes one character or a "
    "braced group, no double superscripts, matching \\left and \\right); the value of what was read is compared with the value of the tree at sample points; it "
    "counts when at least one point was decided; distinct by text"
)
COUNT = {"quick": 26000, "thorough": 200000}
MIN = {"quick": 7000, "thorough": 20000}
make, shrink, describe = printing.make, printing.shrink, printing.describe


def latex(e):
    a, b = e.latex(), simpy.latex(e)
    if a != b:
        raise Violation("two-answers", "e.latex() is %r but latex(e) is %r" % (a, b))
    return a


def run(case, obs):
    return printing.reads(case, obs, latex, lambda text, names: reading.tex(text, names))
