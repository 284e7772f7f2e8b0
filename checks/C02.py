from vlib.core import *
from vlib import proofm
from vlib.proofm import *


def run():
    chk = Check("C02")
    z = 4 if THOROUGH else 1
    G = ["Assume", "Open", "CloseSub", "CloseOther", "StepMisc", "StepRes"]
    for kw in [conf(G + REF + ["StepMisc", "StepRes"], 4, bad=1, holes=0), conf(G + REF, 11, depth=3, holes=0, badfrom=4, sim=700 * z), conf(GOOD + ["OpenDup", "CloseRep", "IdBad", "RefBad"], 9, depth=3, bad=2, sim=500 * z)]:
        proofm.check(chk, **kw)
    chk.finish()
