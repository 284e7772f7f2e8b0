"""Cutting planes (specs/CutP.tla) and pseudo-Boolean bit-blasting (specs/PbBlast.tla)."""
from vlib.rules import *

CP = [r for r in RULES if r.startswith("cp_")]
PB = [r for r in RULES if r.startswith("pbblast_")]


def run():
    chk = Check("C18")
    th = THOROUGH
    P = 1 if th else 4
    attempts(chk, chk.tlc("CutP", dict(MaxEdits=1, Part=SEED % P, Parts=P)), rules=CP)
    attempts(chk, chk.tlc("CutP", dict(MaxEdits=0, Part=0, Parts=1), init="XInit", nxt="XNext", inv=("XEmit",)), rules=CP)
    for w, edits, P in ((1, 1, 12), (2, 1, 8), (3, 1, 30), (4, 0, 1), (6, 0, 1)):
        P = 1 if th else P
        attempts(chk, chk.tlc("PbBlast", dict(W=w, MaxEdits=edits, Part=SEED % P, Parts=P), timeout=3000), rules=PB)
        if w <= 4:
            attempts(chk, chk.tlc("PbBlast", dict(W=w, MaxEdits=0, Part=0, Parts=1), init="XInit", nxt="XNext", inv=("XEmit",)), rules=PB)
    chk.finish()
