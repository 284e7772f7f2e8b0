from vlib.core import *
from vlib import proofm
from vlib.proofm import *


def run():
    chk = Check("C04")
    z = 4 if THOROUGH else 1
    for kw in [conf(["Assume", "Open", "CloseSub", "CloseBad", "CloseLong", "CloseOther", "DisBad"], 5, depth=2, holes=0), conf(["Assume", "Open", "CloseSub", "CloseBad", "CloseLong", "CloseOther", "CloseHole", "StepRes", "StepMisc", "StepDis"], 4, holes=1), conf(["Assume", "Open", "CloseSub", "CloseBad", "CloseLong", "CloseOther", "CloseHole", "StepRes", "StepDis", "DisBad"], 12, depth=4, badfrom=4, sim=900 * z)]:
        proofm.check(chk, **kw)
    chk.finish()
