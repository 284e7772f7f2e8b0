"""Presentations of one document, and documents checked one after the other (specs/SameM.tla)."""
from vlib.core import *

DECL = ("(declare-sort U 0)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun r () Bool)(declare-fun a () U)(declare-fun b () U)(declare-fun c () U)"
        "(declare-fun f (U) U)(declare-fun g (U U) U)(declare-fun P (U) Bool)(declare-fun i () Int)")


def vd(o):
    return o.get("v")


def run():
    chk = Check("C30")
    th = THOROUGH
    t = chk.tlc("SameM", dict(Part="pres", MaxOpt=2 if th else 1, MaxDocs=0), timeout=3000)
    rows = sorted(t.rows, key=lambda r: hashlib.sha1(("%d" % SEED + repr(r)).encode()).hexdigest())[:400000 if th else 20000]
    cases = []
    for r in rows:
        un = lambda s: s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
        o = {k: True for k in r[6].split()}
        st = o.pop("stats", False)
        cases.append(dict(o, k="proof", problem=DECL + un(r[1]) + un(r[2]) + "(assert p)(assert (not p))", stats=True, threads=[2, 3] if st else [],
                          proof="(assume h1 p)(assume h2 (not p))" + un(r[3]) + un(r[4]) + r[5]))
    for r, c, o in zip(rows, cases, replay(cases)):
        chk.replayed += 1
        chk.count("presentation: " + r[8])
        text = "%s [%s / %s] options %s: %s %s" % (r[7], r[8], r[9], r[6], c["problem"][len(DECL):], c["proof"])
        outs = [("", o), ("with statistics, ", o.get("stats", {}))] + [("two threads, ", x) for x in o.get("par", {}).get("2", [])] + [("three threads, ", x) for x in o.get("par", {}).get("3", [])]
        for how, x in outs:
            if vd(x) != r[0]:
                chk.violation(c, "%sverdict %s, it is %s: %s" % (how, json.dumps({k: x[k] for k in x if k in ("v", "msg", "step")}), r[0], text),
                              ident=["pres", how, r[0], vd(x)] + r[1:])
        if r[8] != r[9]:
            chk.nontrivial.add(text)
        if chk.replayed % 4001 == 1:
            chk.sample(text)
    t = chk.tlc("SameM", dict(Part="sess", MaxOpt=0, MaxDocs=4 if th else 3), inv=("SEmit",), timeout=3000)
    cases = []
    for r in t.rows:
        docs = [dict(problem=r[z + 1], proof=r[z + 2]) for z in range(0, len(r), 3)]
        cases.append(dict(k="session", docs=docs))
    for r, c, o in zip(t.rows, cases, replay(cases)):
        chk.replayed += 1
        chk.count("sessions")
        want = [r[z] for z in range(0, len(r), 3)]
        for how in ("pool", "checker", "stats"):
            got = [vd(x) for x in o.get(how, [])]
            if got != want:
                chk.violation(c, "one %s for all documents: verdicts %s, on their own they are %s: %s" % (how, got or o, want, [d["proof"] for d in c["docs"]]),
                              ident=["session", how] + r)
        chk.nontrivial.add(json.dumps(r))
    chk.finish()
