from vlib.rules import *

def run():
    chk = Check("C12")
    P = 1
    attempts(chk, chk.tlc("EqCong", dict(MaxEdits=1, Part=SEED % P, Parts=P)))
    attempts(chk, chk.tlc("EqCongA", dict(MaxEdits=1, Part=0, Parts=1)))
    P = 1 if THOROUGH else 2
    attempts(chk, chk.tlc("EqCong", dict(MaxEdits=0, Part=SEED % P, Parts=P), init="XInit", nxt="XNext", inv=("XEmit",)))
    if THOROUGH:
        for part in range(8):
            attempts(chk, chk.tlc("EqCong", dict(MaxEdits=2, Part=part, Parts=200)))
    chk.finish()
