"""User-defined rewrite rules: steps written by specs/RareM.tla against its catalogue of rules."""
from vlib.rules import *

# files that are not well-formed catalogues: no step may be accepted because of them, nothing may panic
MALFORMED = [
    ("(declare-rare-rule bad ((x1 Bool)) :args (z1) :premises () :conclusion (= x1 x1))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 Bool :what)) :args (x1) :conclusion (= x1 x1))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= x1 nothere))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= x1 (f x1)))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 U)) :args (x1) :conclusion (= x1 x1))", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((xs U :list)) :args (xs) :conclusion (= (or p q) (or xs p q)))", '"bad" (rare-list r)', "(= (or p q) (or r p q))"),
    ("(declare-rare-rule bad ((xs U :list) (x1 Bool)) :args (xs x1) :conclusion (= x1 (distinct xs)))", '"bad" (rare-list p q) r', "(= r (distinct p q))"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= x1 x1)", '"bad" p', "(= p p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= (not (not x1)) x1))", 'bad p', "(= (not (not p)) p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= (not (not x1)) x1))", 'p', "(= (not (not p)) p)"),
    ("(declare-rare-rule bad ((x1 Bool)) :args (x1) :conclusion (= (not (not x1)) x1))", '1 p', "(= (not (not p)) p)"),
]


def run():
    chk = Check("C20")
    th = THOROUGH
    P = 1 if th else 3
    t = chk.tlc("RareM", dict(MaxEdits=1, Part=SEED % P, Parts=P))
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    text = [r[1] for r in t.rows if r[0] == "file"][0]
    rows = [r for r in t.rows if r[0] in ("ok", "not", "odd")]
    cases = [mkcase(decl, r, ["rare_rewrite"], dict(rare=text)) for r in rows]
    for r, c, o in zip(rows, cases, replay(cases, limit=60)):
        chk.replayed += 1
        what = "%s |- %s :args (%s)" % (r[2], r[3], r[4])
        if o.get("pan"):
            chk.violation(c, "rare_rewrite step makes the checker panic: %s -- %s" % (what, o["pan"]), ident=["panic"] + r[2:5])
        if r[0] == "ok":
            chk.count("instances")
            if o.get("acc") != ["rare_rewrite"]:
                chk.violation(c, "instance of a rule not accepted: %s -- %s" % (what, json.dumps(o)[:200]), ident=["ok"] + r[2:5])
            else:
                chk.nontrivial.add(tuple(r[2:5]))
        elif r[0] == "odd":
            chk.count("degenerate_instances")
        else:
            chk.count("not_instances: " + r[5])
            if o.get("v") == "perr":
                chk.count("rejected_by_parser")
            if o.get("acc"):
                chk.violation(c, "step accepted that is not an instance of the rule (%s): %s" % (r[5], what), ident=["not"] + r[2:5])
        if chk.replayed % 2001 == 1:
            chk.sample(what + " [" + r[0] + " " + r[5] + "]")
    cases = [dict(k="step", decl=decl, prem=[], cl=cl, args=a, rules=["rare_rewrite"], rare=f) for f, a, cl in MALFORMED]
    cases += [dict(c, rare=text + c["rare"]) for c in cases]
    cases += [{x: y for x, y in cases[0].items() if x != "rare"}]
    for c, o in zip(cases, replay(cases, limit=60)):
        chk.replayed += 1
        chk.count("malformed_files")
        if o.get("pan") or o.get("v") == "panic" or o.get("acc"):
            chk.violation(c, "malformed rule or reference: %s" % json.dumps(o)[:200], ident=["malformed", c.get("rare", ""), c["args"]])
    chk.finish()
