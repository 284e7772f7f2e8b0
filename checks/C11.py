from vlib.rules import *

def run():
    chk = Check("C11")
    P = 1 if THOROUGH else 1
    attempts(chk, chk.tlc("Simplify", dict(MaxEdits=1, Part=SEED % P, Parts=P, Big=THOROUGH)))
    attempts(chk, chk.tlc("Simplify", dict(MaxEdits=1, Part=SEED % P, Parts=P, Big=False), init="XInit", nxt="XNext", inv=("XEmit",)))
    for c in (dict(), dict(init="XInit", nxt="XNext", inv=("XEmit",))):
        attempts(chk, chk.tlc("AciArith", dict(MaxEdits=1, Part=0, Parts=1), **c))
    chk.finish()
