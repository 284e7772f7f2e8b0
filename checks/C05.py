from vlib.core import *
from vlib import proofm
from vlib.proofm import *


def run():
    chk = Check("C05")
    z = 4 if THOROUGH else 1
    for kw in [conf(GOOD + HOLE + ["StepBad"], 4, holes=1), conf(GOOD + HOLE + ["StepBad"], 4, holes=1, ign=False), conf(GOOD + HOLE, 11, depth=4, holes=2, bad=0, sim=900 * z), conf(GOOD + HOLE + ["CloseBad", "StepBad"], 10, depth=3, holes=2, ign=False, badfrom=5, sim=500 * z)]:
        proofm.check(chk, **kw)
    chk.finish()
