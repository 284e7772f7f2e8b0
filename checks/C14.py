"""Polynomial normal forms over integers, reals and bit-vectors (specs/PolySimp.tla)."""
from vlib.rules import *

PS = ["poly_simp", "bv_poly_simp", "poly_simp_rel", "bv_poly_simp_eq"]


def run():
    chk = Check("C14")
    th = THOROUGH
    for mode, w, P in (("Int", 1, 3), ("Real", 1, 4), ("BV", 1, 1), ("BV", 2, 2), ("BV", 4, 4)) + ((("BV", 3, 1), ("BV", 6, 1)) if th else ()):
        P = 1 if th else P
        attempts(chk, chk.tlc("PolySimp", dict(Mode=mode, W=w, MaxEdits=1, Part=SEED % P, Parts=P)), rules=PS)
        attempts(chk, chk.tlc("PolySimp", dict(Mode=mode, W=w, MaxEdits=0, Part=0, Parts=1), init="XInit", nxt="XNext", inv=("XEmit",)), rules=PS)
    chk.finish()
