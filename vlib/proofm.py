"""Proofs written by the machine of specs/ProofM.tla, replayed into the real checker."""
from .core import *

PROBLEM = "(declare-fun p () Bool)(declare-fun q () Bool)(assert p)(assert (not p))(assert (not q))(assert (or (not p) q))"
GOOD = ["Assume", "StepRes", "StepMisc", "Open", "CloseSub", "CloseOther"]
HOLE = ["StepHole", "CloseHole"]
REF = ["RefBad", "IdBad", "OpenDup", "CloseRep", "DisBad", "AssumeLate", "CloseEmpty", "CloseAsm"]
BAD = ["AssumeBad", "StepBad", "StepDis", "CloseBad", "CloseLong"]
ALL = GOOD + HOLE + REF + BAD


def conf(acts, n, bad=1, depth=2, holes=1, ign=True, sim=None, badfrom=0):
    k = dict(MaxN=n, MaxBad=bad, MaxDepth=depth, MaxHoles=holes, Ign=ign, Sim=bool(sim), BadFrom=badfrom,
             Acts="{" + ",".join('"%s"' % a for a in sorted(acts)) + "}")
    return dict(consts=k, sim=sim, ign=ign)


def general():
    z = 4 if THOROUGH else 1
    return [conf(ALL, 3), conf(GOOD, 5, bad=0, holes=0), conf(GOOD + HOLE, 10, bad=0, depth=3, holes=2, sim=800 * z),
            conf(ALL, 11, depth=3, badfrom=5, holes=1, ign=False, sim=600 * z)]


def generate(chk, consts, sim=None, ign=True):
    if sim:
        t = chk.tlc("ProofM", consts, inv=("Sound",), simulate=sim, depth=consts["MaxN"] + 3)
    else:
        t = chk.tlc("ProofM", consts, inv=("Emit", "Sound"))
    return [r for r in t.rows if r[0] == "proof"]


def case(r, ign, **kw):
    return dict(dict(k="proof", problem=PROBLEM, proof=r[3], ignore_unknown=ign, allowed=["mystery2", "symm"]), **kw)


def check(chk, consts, sim=None, ign=True, keep=None, cap=60000, **kw):
    rows = generate(chk, consts, sim, ign)
    if keep:
        rows = [r for r in rows if keep(r)]
    cap = cap * 3 if THOROUGH else cap
    if len(rows) > cap:
        # the rare verdicts are kept, the rest is thinned
        rare = [r for r in rows if r[1] in ("valid", "holey")]
        rest = [r for r in rows if r[1] not in ("valid", "holey")]
        rows = rare[:cap // 2] + rest[SEED % 2::max(1, len(rest) * 2 // cap)]
    cases = [case(r, ign, **kw) for r in rows]
    res = replay(cases)
    for r, c, o in zip(rows, cases, res):
        judge(chk, r, c, o)
    return rows, cases, res


def judge(chk, r, c, o):
    chk.replayed += 1
    chk.count("verdict_" + r[1])
    got = o.get("v")
    if got == "invalid" and o.get("msg") == "noempty":
        got = "noempty"
    if got != r[1] or (r[1] == "invalid" and o.get("step") != r[2]):
        chk.violation(c, "the checker says %s, the specification %s %s: %s" % (json.dumps({k: o[k] for k in o if k in ("v", "step", "msg", "rule")}), r[1], r[2], r[3]),
                      ident=[r[3], c["ignore_unknown"]])
    elif chk.replayed % 4001 == 7:
        chk.sample("%s %s: %s" % (r[1], r[2], r[3][:300]))
    if r[1] in ("valid", "holey", "invalid"):
        chk.nontrivial.add(r[3])
