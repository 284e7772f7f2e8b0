"""Printing: proofs written by specs/PrintM.tla, SortsM.tla, ReadM.tla and ProofM.tla are read, printed (with sharing and without) and read again by
the real code. What both readings say must be what the specification says, and the printed text must be the same every time."""
import random
from vlib.core import *
from vlib import proofm

HOWS = {"ns": "printed without sharing", "sh": "printed with sharing"}


def pairs(x):
    return " ".join("%d,%d" % tuple(p) for p in x)


def describe(read):
    out = []
    for c in read["cmds"]:
        if c[0] == "anchor":
            out.append(("anchor " + " ".join(c[2])).strip())
        elif c[0] == "assume":
            out.append("assume %s / %s" % (c[2], c[3]))
        else:
            out.append("step %s / %s / %s / %s / %s" % (c[2], " / ".join(c[3]), c[4], pairs(c[5]), pairs(c[7])))
    return " | ".join(out)


def judge(chk, fam, case, o, want, verdict=False):
    """want: what the proof says, according to the specification (None: what the first reading says)"""
    chk.replayed += 1
    txt = case["proof"]
    ident = [fam, case["problem"], txt]
    if o["v"] != "ok":
        chk.violation(case, "%s: not read: %s: %s" % (fam, o, txt), ident=ident)
        return
    chk.nontrivial.add(txt)
    for k, how in HOWS.items():
        r = o[k]
        if "re" in r:
            chk.violation(case, "%s: %s, it is not read again: %s: %s PRINTED %s" % (fam, how, r["re"], txt, r["text"]), ident=ident)
        elif not r["same"]:
            chk.violation(case, "%s: %s, it is read as another proof: %s PRINTED %s" % (fam, how, txt, r["text"]), ident=ident)
        elif want is not None and describe(r["read"]) != want:
            chk.violation(case, "%s: %s, it says %s, it should say %s: %s PRINTED %s" % (fam, how, describe(r["read"]), want, txt, r["text"]), ident=ident)
        elif not r["det"]:
            chk.violation(case, "%s: %s twice, the texts differ: %s PRINTED %s" % (fam, how, txt, r["text"]), ident=ident)
        elif verdict and r["verdict"]["v"] != o["verdict"]["v"]:
            chk.violation(case, "%s: %s, the verdict is %s, it was %s: %s PRINTED %s" % (fam, how, r["verdict"], o["verdict"], txt, r["text"]), ident=ident)


def run_cases(chk, fam, cases, verdict=False):
    for (c, want), o in zip(cases, replay([dict(c, k="roundtrip", noverdict=not verdict) for c, _ in cases])):
        judge(chk, fam, c, o, want, verdict)
    chk.count(fam, len(cases))
    if cases:
        chk.sample("%s: %s" % (fam, cases[len(cases) // 2][0]["proof"]))


def batches(rows, rng, size):
    """proofs with several terms, in two orders, so that terms share subterms"""
    out = []
    for order in range(2):
        rows = list(rows)
        if order:
            rng.shuffle(rows)
        for z in range(0, len(rows), size):
            part = rows[z:z + size]
            steps, want = [], []
            for n, (txt, canon) in enumerate(part):
                steps.append("(step t%d (cl (= %s %s)) :rule hole :args (%s))" % (n, txt, txt, txt))
                want.append("step t%d / (= %s %s) / hole /  / " % (n, canon, canon))
            out.append(("".join(steps), " | ".join(want)))
    return out


def run():
    chk = Check("C23")
    rng = random.Random(SEED)
    s = open(os.path.join(SPECS, "Sorts.tla")).read()
    decl = re.search(r'^Decl == "(.*)"$', s, re.M).group(1)
    rows = chk.tlc("PrintM", dict(Fam="sym", MaxN=0)).rows
    run_cases(chk, "symbols", [(dict(problem=r[1], proof=r[2]), r[3]) for r in rows])
    rows = chk.tlc("PrintM", dict(Fam="defs", MaxN=5 if THOROUGH else 4), workers=NPROC).rows
    if not THOROUGH:
        rows = rng.sample(rows, min(len(rows), 40000))
    run_cases(chk, "definitions", [(dict(problem="(declare-sort U 0)(declare-fun a () U)(declare-fun f (U) U)" + r[1], proof=r[2]), r[3]) for r in rows])
    rows = [r for r in chk.tlc("ReadM", dict(Fam="lit", MaxN=0)).rows if r[2] == "ok"]
    run_cases(chk, "literals", [(dict(problem=decl, proof=x), w) for x, w in batches([(r[1], r[4]) for r in rows], rng, 6)])
    rows = [r for r in chk.tlc("ReadM", dict(Fam="anch", MaxN=3), workers=NPROC).rows if r[2] == "ok"]
    run_cases(chk, "scopes", [(dict(problem=decl, proof=r[1]), None) for r in rows])
    for fam, c in [("op", dict(MaxN=3)), ("idx", {}), ("nest", dict(Depth=2)), ("scope", {})]:
        t = chk.tlc("SortsM", dict(dict(Fam=fam, MaxN=0, Depth=0, Part=0, Parts=1), **c), workers=NPROC)
        rows = [(r[1], r[4]) for r in t.rows if r[2] == "ok"]
        rng.shuffle(rows)
        run_cases(chk, "terms_" + fam, [(dict(problem=decl, proof=x), w) for x, w in batches(rows[:200000 if THOROUGH else 40000], rng, 6)])
    rows = proofm.generate(chk, **proofm.conf(proofm.GOOD + proofm.HOLE, 4, bad=0, holes=1))
    rows += proofm.generate(chk, **proofm.conf(proofm.GOOD + proofm.HOLE, 9, bad=1, depth=3, holes=2, sim=4000 if THOROUGH else 400))
    rows = [r for r in rows if r[1] != "perr"]
    rows = rng.sample(rows, min(len(rows), 60000 if THOROUGH else 12000))
    run_cases(chk, "proofs", [(proofm.case(r, True), None) for r in rows], verdict=True)
    chk.finish()
