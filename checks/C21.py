"""Evaluation: terms and their values written by specs/EvalM.tla (values computed there) and specs/EvalW.tla (wide bit-vectors, bit by bit); the evaluate rule must justify exactly these equations."""
from vlib.core import *

DECL = open(os.path.join(SPECS, "Terms.tla")).read()
DECL = "".join(re.findall(r'"(\([^"]*\))"', DECL[DECL.index("Decl =="):DECL.index("BoolOps")])) + "(declare-fun A () (_ BitVec 2))(declare-fun B () (_ BitVec 3))"


def judge(chk, rows, **opts):
    cases = [dict(k="step", decl=DECL, prem=[], cl="(= %s %s)" % (r[1], r[2]), args="", rules=["evaluate"], **opts) for r in rows]
    for r, c, o in zip(rows, cases, replay(cases)):
        chk.replayed += 1
        ident = [r[0], r[1], r[2]]
        acc = "evaluate" in o.get("acc", [])
        if o.get("pan") or o.get("v") in ("panic", "crash", "hang"):
            chk.violation(c, "evaluation crashes: %s" % c["cl"], ident=["panic", r[1]])
        elif r[0] == "any":
            chk.count("odd_terms")
        elif o.get("v") == "perr":
            chk.violation(c, "a well-sorted equation is refused: %s: %s" % (o, c["cl"]), ident=ident)
        elif r[0] == "bad":
            chk.count("wrong_values")
            if acc:
                chk.violation(c, "a wrong value is accepted: %s" % c["cl"], ident=ident)
        elif r[0] == "negmod":
            chk.count("negative_moduli")
            if not acc:
                chk.violation(c, "remainder by a negative number: %s" % c["cl"], ident=["known-class", "negative-modulus"])
        elif r[0] == "ok":
            chk.nontrivial.add(r[1])
            if not acc:
                chk.violation(c, "the value is not accepted: %s" % c["cl"], ident=ident)
    chk.sample("%s: %s = %s" % tuple(rows[len(rows) // 2][:3]))


def run():
    chk = Check("C21")
    th = THOROUGH
    for c, kw, o in [(dict(Fam="op", MaxW=5 if th else 3, Depth=0, Sub=False), {}, {}), (dict(Fam="op", MaxW=1, Depth=0, Sub=True), {}, dict(int_real=True)),
                     (dict(Fam="odd", MaxW=1, Depth=0, Sub=False), {}, {}), (dict(Fam="ix", MaxW=6 if th else 4, Depth=0, Sub=False), {}, {}),
                     (dict(Fam="nest", MaxW=3, Depth=4, Sub=False), dict(simulate=400 if th else 25, depth=5), {})]:
        judge(chk, chk.tlc("EvalM", c, **kw).rows, **o)
    chk.tlc("EvalW", dict(Widths="{1, 2, 3, 4}"), inv=("Agree",))
    judge(chk, chk.tlc("EvalW", dict(Widths="{1, 4, 31, 32, 33, 63, 64, 65, 127, 128, 129}" if th else "{4, 32, 33, 64, 65}")).rows)
    chk.finish()
