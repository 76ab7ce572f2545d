"""C18 what repr() prints reads back as the same value"""
from .. import printing, reading
from ..common import *
from ..core import Violation

ID = "C18"
RULE = (
    "a case is an expression (random, built to put every kind of number, sign, fraction, power, function and name in every position, or the result of "
    "an operation) whose repr is read back by an independent reader of ordinary notation; the value of what was read is compared "
    "with the value of the tree at sample points; it counts when at least one point was decided; distinct by text"
)
COUNT = {"quick": 26000, "thorough": 200000}
MIN = {"quick": 7000, "thorough": 20000}
make, shrink, describe = printing.make, printing.shrink, printing.describe


def run(case, obs):
    return printing.reads(case, obs, repr, lambda text, names: reading.plain(text))
