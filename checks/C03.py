"""Assumptions: what a proof may assume is what the problem asserts (up to reordering and n-ary grouping), under every way of writing it down."""
from vlib.core import *

HOLE = "(step t9 (cl) :rule hole)"


def run_pairs(chk, t, step=1):
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    rows = [r for r in t.rows if r[0] == "pair"][SEED % step::step]
    def mk(s, t, wrap, sub=False):
        a, b = ("(= %s %s)" % (s, s), "(= %s %s)" % (t, s)) if wrap else (s, t)
        other = "(assert (not p1))(assert %s)(assert (or p2 p3))"
        pr = decl + "(declare-fun p1 () Bool)(declare-fun p2 () Bool)(declare-fun p3 () Bool)" * (" p1 " not in decl) + other % a
        if sub:
            return dict(k="proof", problem=pr, proof="(assume h1 (not p1))(anchor :step t1)(assume t1.h %s)(step t1.t (cl p1) :rule hole)(step t1 (cl (not %s) p1) :rule subproof :discharge (h))%s" % (b, b, HOLE))
        return dict(k="proof", problem=pr, proof="(assume h1 (not p1))(assume h2 %s)%s" % (b, HOLE))
    cases, meta = [], []
    for r in rows:
        for wrap in (False, True):
            for el in (False, True):
                cases.append(dict(mk(r[1], r[2], wrap), elaborated=el))
                meta.append((r, wrap, el, False))
        cases.append(mk(r[1], r[2], False, True))
        meta.append((r, False, False, True))
    res = replay(cases)
    for (r, wrap, el, sub), c, o in zip(meta, cases, res):
        v = o.get("v")
        chk.replayed += 1
        if v == "perr":
            chk.count("rejected_by_parser")
            continue
        what = "%s asserted%s, %s assumed%s" % (r[1], " (inside an equality)" if wrap else "", r[2], " (elaborated proof)" if el else " in a subproof" if sub else "")
        ident = ["pair", wrap, el, sub] + r[1:3]
        same = r[1] == r[2]
        must = sub or same or (not el and (r[3][1] == "1" or r[5] in ("nary", "flipnary")))
        mustnt = not sub and (r[4] == "1" or (el and not same))
        if v not in ("holey", "invalid") or (v == "invalid" and o.get("step") != "h2"):
            chk.violation(c, "%s: %s" % (what, o), ident=ident)
        elif must and v != "holey":
            chk.violation(c, "refused: %s: %s" % (what, o), ident=ident)
        elif mustnt and v == "holey":
            chk.violation(c, "accepted: %s" % what, ident=ident)
        chk.count("accepted" if v == "holey" else "refused")
        if must or mustnt:
            chk.nontrivial.add((r[1], r[2], wrap, el, sub))
        if chk.replayed % 5003 == 1:
            chk.sample("%s: %s" % (what, v))


def run_defs(chk, t):
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    rows = [r for r in t.rows if r[0] == "pair"]
    cases, meta = [], []
    for r in rows:
        for ad in (False, True):
            for el in (False, True):
                for elab in (False, True):
                    cases.append(dict(k="proof", problem=decl + "(assert p1)(assert %s)(assert (or p2 p3))" % r[1], proof="(assume h1 p1)(assume h2 %s)%s" % (r[2], HOLE),
                                      apply_defs=ad, expand_lets=el, elaborated=elab))
                    meta.append((r, ad, el, elab))
    res = replay(cases)
    for (r, ad, el, elab), c, o in zip(meta, cases, res):
        same, easy_eq, lets_eq, sep, easy = [x == "1" for x in r[3]]
        v = o.get("v")
        chk.replayed += 1
        what = "%s asserted, %s assumed (apply definitions %s, expand lets %s, elaborated %s)" % (r[1], r[2], ad, el, elab)
        ident = ["defs", ad, el, elab] + r[1:3]
        if v == "perr" and not (same and (easy or not ad)):
            chk.count("refused_by_parser")
            continue
        if v not in ("holey", "invalid") or (v == "invalid" and o.get("step") != "h2"):
            chk.violation(c, "%s: %s" % (what, o), ident=ident)
            continue
        must = same or (ad and easy_eq) or (ad and el and lets_eq and not elab)
        if must and v != "holey":
            chk.violation(c, "refused: %s: %s" % (what, o), ident=ident)
        if sep and v == "holey":
            chk.violation(c, "accepted, but a model separates them: %s" % what, ident=ident)
        chk.count("definitions_accepted" if v == "holey" else "definitions_refused")
        if must or sep:
            chk.nontrivial.add((r[1], r[2], ad, el, elab))


D = "(declare-sort U 0)(declare-fun a () U)(declare-fun b () U)(declare-fun P (U) Bool)(declare-fun p () Bool)(declare-fun q () Bool)"
FORMS = [  # problem, assumed term, options, accepted?
    ("(assert p)(check-sat)", "p", {}, True),
    ("(check-sat)", "p", {}, False),
    ("(check-sat-assuming (p (not q)))", "(not q)", {}, True),
    ("(check-sat-assuming (p (not q)))", "p", {}, True),
    ("(check-sat-assuming (p (not q)))", "q", {}, False),
    ("(check-sat-assuming (p (not q)))", "(and p (not q))", {}, False),
    ("(assert (! (P a) :named N1))", "(P a)", {}, True),
    ("(assert (! (P a) :named N1))", "N1", {}, True),
    ("(assert (! (P a) :named N1))", "(P b)", {}, False),
    ("(assert (or (! (P a) :named N1) q))(assert N1)", "(P a)", {}, True),
    ("(assert (or (! (P a) :named N1) q))", "N1", {}, False),
    ("(define-fun F () Bool (P a))", "(= F (P a))", {}, True),
    ("(define-fun F () Bool (P a))", "F", {}, False),
    ("(define-fun F () Bool (P a))", "(P a)", {}, False),
    ("(define-fun F () Bool (P a))", "(= F (P b))", {}, False),
    ("(define-fun F () Bool (P a))", "(= (P a) F)", {}, True),
    ("(define-fun F () Bool (P a))", "(= (P a) (P a))", dict(apply_defs=True), False),
    ("(define-fun F () Bool (P a))", "(P a)", dict(apply_defs=True), False),
    ("(define-fun F ((x U)) Bool (P x))", "(= F (lambda ((x U)) (P x)))", {}, True),
    ("(define-fun F ((x U)) Bool (P x))", "(= F (lambda ((x U)) (not (P x))))", {}, False),
    ("(define-fun F ((x U)) Bool (P x))(assert (F a))", "(F a)", {}, True),
    ("(define-fun F ((x U)) Bool (P x))(assert (F a))", "(P a)", {}, False),
    ("(define-fun F ((x U)) Bool (P x))(assert (F a))", "(P a)", dict(apply_defs=True), True),
    ("(define-fun-rec F ((x U)) Bool (P x))", "(forall ((x U)) (= (F x) (P x)))", {}, True),
    ("(define-fun-rec F ((x U)) Bool (P x))", "(forall ((x U)) (= (F x) (not (P x))))", {}, False),
    ("(declare-fun n () Int)(assert (= (+ n 1) 2))", "(= (+ n 1) 2)", {}, True),
    ("(declare-fun n () Int)(assert (= (+ n 1) 2))", "(= (+ n 1) 3)", {}, False),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) 2))", "(= (+ n 1.0) 2.0)", {}, True),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) 2))", "(= (+ n 1.0) 2.5)", {}, False),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) (/ 1 2)))", "(= (+ n 1.0) (/ 1.0 2.0))", {}, True),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) (/ 1 2)))", "(= (+ n 1.0) 0.5)", {}, True),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) (- (/ 1 2))))", "(= (+ n 1.0) (- 0.5))", {}, True),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= (+ n 1) (/ 1 2)))", "(= (+ n 1.0) (/ 1.0 3.0))", {}, False),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= n (/ 1 2 3)))", "(= n (/ 1.0 2.0))", {}, False),
    ("(set-logic QF_LRA)(declare-fun n () Real)(assert (= n (/ 1 2 3)))", "(= n (/ 1.0 2.0 3.0))", {}, True),
    ("(push 1)(assert p)(assert q)", "q", {}, True),
    ("(assert (forall ((x U)) (P x)))", "(forall ((y U)) (P a))", {}, False),
]


def run_forms(chk):
    cases = [dict(dict(k="proof", problem=D + f[0], proof="(assume h2 %s)%s" % (f[1], HOLE)), **f[2]) for f in FORMS]
    for f, c, o in zip(FORMS, cases, replay(cases)):
        chk.replayed += 1
        chk.count("problem_forms")
        v = o.get("v")
        if f[3] and v != "holey" or not f[3] and not (v == "invalid" and o.get("step") == "h2"):
            chk.violation(c, "%s, assuming %s %s: %s" % (f[0], f[1], f[2], o), ident=["form", f[0], f[1], str(f[2])])


def run():
    chk = Check("C03")
    for c in [dict(MaxD=2, MaxE=0, Part=0, Parts=1), dict(MaxD=1, MaxE=1, Part=0, Parts=1)]:
        run_pairs(chk, chk.tlc("Polyeq", c), 1 if THOROUGH else 2)
        run_pairs(chk, chk.tlc("PolyeqA", c), 1 if THOROUGH else 2)
    run_defs(chk, chk.tlc("AssumeD", dict(Part=0, Parts=1)))
    run_forms(chk)
    chk.finish()
