from vlib.rules import *

def run():
    chk = Check("C16")
    P = 2 if THOROUGH else 6
    attempts(chk, chk.tlc("Quant", dict(MaxEdits=1, Part=SEED % P, Parts=P)))
    P = 10 if THOROUGH else 100
    attempts(chk, chk.tlc("Quant", dict(MaxEdits=0, Part=SEED % P, Parts=P), init="XInit", nxt="XNext", inv=("XEmit",)))
    chk.finish()
