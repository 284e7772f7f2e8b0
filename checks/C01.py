from vlib.core import *
from vlib import proofm

def run():
    chk = Check("C01")
    for kw in proofm.general():
        proofm.check(chk, **kw)
    chk.finish()
