"""Linear arithmetic: Farkas steps written by specs/LinArith.tla, the other rules by specs/ArithSimp.tla."""
from vlib.rules import *


def known(rule, r):
    m = re.match(r"^\(cl \(= \((div|/) (.*)\) (1|1\.0)\)\)$", r[3])
    if rule == "div_simplify" and m and "(" not in m.group(2) and len(set(m.group(2).split())) == 1:
        return ["known-class", "quotient-of-equal-terms"]


def run():
    chk = Check("C13")
    th = THOROUGH
    for mode in ("int", "real", "mix"):
        for fam in ("one", "two", "three"):
            attempts(chk, chk.tlc("LinArith", dict(Fam=fam, Mode=mode, K=1 if th else 0)), all_rules=th)
    S = '{"Int", "Real"}'
    attempts(chk, chk.tlc("ArithSimp", dict(MaxEdits=1, Part=0, Parts=1, Sorts=S)), known=known)
    attempts(chk, chk.tlc("ArithSimp", dict(MaxEdits=1, Part=0, Parts=1, Sorts=S), init="XInit", nxt="XNext", inv=("XEmit",)), known=known)
    chk.finish()
