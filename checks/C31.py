"""Every document gets an answer, the same however it is asked (specs/CrashM.tla)."""
from vlib.rules import *

PRE = ("(declare-sort U 0)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun a () U)(declare-fun b () U)(declare-fun y () U)(declare-fun x () U)(declare-fun f (U) U)(assert p)(assert (not p))")
DECL = ("(declare-sort U 0)(declare-fun a () U)(declare-fun f (U) U)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun i () Int)(declare-fun u () Real)"
        "(declare-fun A () (_ BitVec 2))(declare-fun C () (_ BitVec 4))(declare-fun s () String)(declare-fun r () RegLan)")
RPRE = "(declare-sort U 0)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun a () U)(declare-fun f (U) U)(declare-fun i () Int)(assert p)(assert (not p))"
RARE = "(declare-rare-rule rr ((x Bool)) :args (x) :conclusion (= (and x true) x))"


def un(s):
    return s.replace("\\q;", '"')


def run():
    chk = Check("C31")
    th = THOROUGH
    k = 1 if th else 12
    rows = []

    def docs(t, name):
        cases, meta = [], []
        for r in t.rows:
            if r[0] == "text":
                c = dict(k="all", problem=un(r[2]), proof=un(r[3]), ignore_unknown=True, rare=RARE)
                owed = r[1]
            elif r[0] == "rare":
                c = dict(k="all", problem=RPRE, proof="(assume h1 p)(assume h2 (not p))" + un(r[3]) + "(step fin (cl) :rule resolution :premises (h1 h2))", rare=un(r[2]), ignore_unknown=True)
                owed = r[1]
            else:
                c = dict(k="all", problem=PRE, proof="(assume h1 p)(assume h2 (not p))" + r[2] + "(step fin (cl) :rule resolution :premises (h1 h2))", ignore_unknown=True)
                owed = r[1]
            cases.append(c)
            meta.append(owed)
        for c, owed, o in zip(cases, meta, replay(cases, limit=60)):
            chk.replayed += 1
            v = o.get("v")
            text = (c["rare"] if name.startswith("rare") else c["problem"])[-300:] + " / " + c["proof"]
            chk.count("%s: %s" % (name, v))
            if v in ("panic", "crash", "hang") or o.get("pan"):
                chk.violation(c, "no answer (%s): %s" % (o.get("pan") or o, text), ident=["crash", name, v, sorted(set(o.get("pan", [])))])
            elif v not in ("valid", "holey", "invalid", "noempty", "perr"):
                chk.violation(c, "no verdict (%s): %s" % (o, text), ident=["verdict", name, str(v)])
            if owed == "refuse" and v != "perr":
                chk.violation(c, "a document that does not end where it should is read (%s): %s" % (v, text), ident=["refuse", name, text])
            if owed == "good" and v not in ("valid", "holey"):
                chk.violation(c, "a document without mistakes is refused (%s): %s" % (o, text), ident=["good", name, text])
            for w, x in o.get("ways", {}).items():
                if x != v:
                    chk.violation(c, "%s says %s, plain checking %s: %s" % (w, x, v, text), ident=["ways", w, x, v, text])
            if v in ("valid", "holey", "invalid"):
                chk.nontrivial.add(text)
            if chk.replayed % 5001 == 1:
                chk.sample("%s: %s" % (v, text[:400]))

    docs(chk.tlc("CrashM", dict(Mode="text", MaxEdits=1, Part=SEED % k, Parts=k, Sim=False), init="TInit", nxt="TNext", inv=("TEmit",)), "text")
    docs(chk.tlc("CrashM", dict(Mode="text", MaxEdits=3, Part=0, Parts=1, Sim=True), init="TInit", nxt="TNext", inv=("TEmit",), simulate=100000 if th else 4000, depth=5), "texts")
    k = 1 if th else 4
    docs(chk.tlc("CrashM", dict(Mode="rare", MaxEdits=1, Part=SEED % k, Parts=k, Sim=False), init="RInit", nxt="RNext", inv=("REmit",)), "rare")
    docs(chk.tlc("CrashM", dict(Mode="rare", MaxEdits=3, Part=0, Parts=1, Sim=True), init="RInit", nxt="RNext", inv=("REmit",), simulate=50000 if th else 2000, depth=5), "rares")
    k = 4 if th else 24
    docs(chk.tlc("CrashM", dict(Mode="scope", MaxEdits=1, Part=SEED % k, Parts=k, Sim=False), init="CInit", nxt="CNext", inv=("CEmit",)), "scope")
    k = 100 if th else 1000
    t = chk.tlc("CrashM", dict(Mode="shape", MaxEdits=1, Part=SEED % k, Parts=k, Sim=False), init="SInit", nxt="SNext", inv=("SEmit",))
    cases = []
    for r in t.rows:
        cl = un(r[2])
        cases.append(dict(k="step", decl=DECL, prem=[cl if x == "self" else "" if x == "empty" else x for x in un(r[1]).split(" ;; ")] if r[1] else [], cl=cl, args=un(r[3]), rules=RULES, rare=RARE))
    for c, o in zip(cases, replay(cases, limit=60)):
        chk.replayed += 1
        v = o.get("v")
        chk.count("shape: %s" % v)
        text = "%s |- (cl %s) :args (%s)" % (c["prem"], c["cl"], c["args"])
        if o.get("pan") or v in ("panic", "crash", "hang"):
            chk.violation(c, "no answer (%s): %s" % (o.get("pan") or o, text), ident=["shape", str(o.get("pan") or v)])
        elif v != "perr":
            chk.nontrivial.add(text)
    chk.finish()
