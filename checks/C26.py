from vlib.core import *

MODES = ("plain", "re", "al", "real")

def pairs(chk, t):
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    rows = [r for r in t.rows if r[0] == "pair"]
    cases = []
    for r in rows:
        for x, y in ((r[1], r[2]), (r[2], r[1])):
            cases.append(dict(k="term", op="polyeq", decl=decl, terms=[x, y]))
    res = replay(cases)
    for n, r in enumerate(rows):
        a, b = res[2 * n], res[2 * n + 1]
        what = "%s  vs  %s" % (r[1], r[2])
        chk.replayed += 2
        if a.get("v") == "perr" and b.get("v") == "perr":
            chk.count("rejected_by_parser")
            continue
        if a.get("v") != "ok" or b.get("v") != "ok":
            chk.violation(cases[2 * n], "comparison failed: %s: %s" % (what, a if a.get("v") != "ok" else b), ident=["fail"] + r[1:3])
            continue
        chk.count("pairs")
        chk.count("pairs_separated" if r[4] == "1" else "pairs_not_separated")
        for m, bit in zip(MODES, r[3]):
            for o, order in ((a, "left to right"), (b, "right to left")):
                if o[m] != (bit == "1"):
                    chk.violation(cases[2 * n], "%s (%s, %s): %s, expected %s" % (what, m, order, o[m], bit == "1"), ident=[m, order] + r[1:3])
        for m in ("nary", "naryal"):
            for o, order in ((a, "left to right"), (b, "right to left")):
                if o[m] and r[4] == "1":
                    chk.violation(cases[2 * n], "%s (%s, %s): judged equal, but a model separates them" % (what, m, order), ident=[m, order] + r[1:3])
                if not o[m] and (r[3][1 if m == "nary" else 3] == "1" or r[5] in ("nary", "flipnary")):
                    chk.violation(cases[2 * n], "%s (%s, %s): not judged equal" % (what, m, order), ident=[m, order] + r[1:3])
        if a["ptr"] != (r[1] == r[2]):
            chk.violation(cases[2 * n], "%s: allocation shared: %s" % (what, a["ptr"]), ident=["ptr"] + r[1:3])
        if r[1] != r[2]:
            chk.nontrivial.add((r[1], r[2]))
        if n % 2003 == 1:
            chk.sample(what + " [re,al,.. = %s, separated %s]" % (r[3], r[4]))


def lits(chk, t):
    decl = "(declare-fun i () Int)"
    rows = [r for r in t.rows if r[0] == "lit"]
    cases = [dict(k="term", op="polyeq", decl=decl, terms=[r[1], r[2]]) for r in rows]
    res = replay(cases)
    by = {}
    for r, c, o in zip(rows, cases, res):
        chk.replayed += 1
        if o.get("v") != "ok":
            if o.get("v") != "perr":
                chk.violation(c, "comparison of constants failed: %s vs %s: %s" % (r[1], r[2], o), ident=r)
            continue
        by[r[1], r[2]] = o
        chk.count("constant_pairs")
        for m in ("plain", "re", "al", "real", "nary", "naryal"):
            if o[m] and r[3] == "differ":
                chk.violation(c, "constants with different values judged equal (%s): %s vs %s" % (m, r[1], r[2]), ident=[m] + r[1:3])
            q = by.get((r[2], r[1]))
            if q and q[m] != o[m]:
                chk.count("asymmetric_constants")


def run():
    chk = Check("C26")
    for c in ([dict(MaxD=2, MaxE=0, Part=0, Parts=1), dict(MaxD=1, MaxE=1, Part=0, Parts=1)] +
              ([dict(MaxD=3, MaxE=0, Part=0, Parts=1), dict(MaxD=1, MaxE=2, Part=SEED % 4, Parts=4)] if THOROUGH else [])):
        pairs(chk, chk.tlc("Polyeq", c))
    for c in [dict(MaxD=2, MaxE=0, Part=0, Parts=1), dict(MaxD=1, MaxE=1, Part=0, Parts=1)] + ([dict(MaxD=1, MaxE=2, Part=0, Parts=4)] if THOROUGH else []):
        pairs(chk, chk.tlc("PolyeqA", c))
    lits(chk, chk.tlc("PolyeqA", dict(MaxD=0, MaxE=0, Part=0, Parts=1), init="PInitC", nxt="PNextC", inv=("EmitC",)))
    chk.finish()
