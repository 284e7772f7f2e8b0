from vlib.rules import *

def run():
    chk = Check("C09")
    runs = [dict(Mode="trace", NPrem=2, NSteps=1, Univ=1, W=0), dict(Mode="trace", NPrem=4, NSteps=4, Univ=2, W=1),
            dict(Mode="trace", NPrem=3, NSteps=2, Univ=1, W=2), dict(Mode="core", NPrem=4, NSteps=3, Univ=2, W=5),
            dict(Mode="core", NPrem=4, NSteps=5, Univ=3, W=1),
            dict(Mode="guess", NPrem=2, NSteps=1, Univ=1, W=0), dict(Mode="tempt", NPrem=2, NSteps=2, Univ=1, W=0), dict(Mode="tempt", NPrem=4, NSteps=2, Univ=3, W=2), dict(Mode="guess", NPrem=4, NSteps=3, Univ=3, W=1)]
    if THOROUGH:
        runs += [dict(Mode="trace", NPrem=5, NSteps=5, Univ=3, W=2), dict(Mode="guess", NPrem=5, NSteps=3, Univ=3, W=2),
                 dict(Mode="core", NPrem=4, NSteps=4, Univ=2, W=6), dict(Mode="trace", NPrem=2, NSteps=2, Univ=1, W=0)]
    for c in runs:
        t = chk.tlc("Drup", c, inv=("Emit", "Sound"), workers=1 if c["W"] else NPROC, timeout=1500)
        attempts(chk, t, rules=["drup", "drat", "resolution", "strict_resolution"])
    chk.finish()
