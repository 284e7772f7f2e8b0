from vlib.rules import *

def run():
    chk = Check("C10")
    t = chk.tlc("Clausify", dict(MaxEdits=1, Part=0, Parts=1, Big=THOROUGH))
    attempts(chk, t)
    if THOROUGH:
        for part in range(40):
            t = chk.tlc("Clausify", dict(MaxEdits=2, Part=part, Parts=400, Big=False), timeout=2000)
            attempts(chk, t)
    chk.finish()
