"""Bit-blasting: the documented circuits as terms (specs/BitBlast.tla), at widths 1 to 10."""
from vlib.rules import *

BB = [r for r in RULES if r.startswith("bitblast_")] + ["evaluate", "refl", "all_simplify", "rare_rewrite"]


def run():
    chk = Check("C17")
    th = THOROUGH
    for w, edits, parts, mw in ((1, 1, 1, 1), (2, 1, 1, 2), (3, 1, 1 if th else 10, 3), (4, 1 if th else 0, 20, 4 if th else 3), (7, 0, 1, 3), (10, 0, 1, 3)):
        t = chk.tlc("BitBlast", dict(W=w, MaxEdits=edits, Part=SEED % parts, Parts=parts, MW=mw), timeout=3000)
        attempts(chk, t, rules=[r for r in BB if r in RULES])
        if w <= 4:
            t = chk.tlc("BitBlast", dict(W=w, MaxEdits=0, Part=0, Parts=1, MW=min(mw, 3)), init="XInit", nxt="XNext", inv=("XEmit",))
            attempts(chk, t, rules=[r for r in BB if r in RULES])
    chk.finish()
