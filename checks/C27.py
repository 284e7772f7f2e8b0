"""Sorts: terms written by specs/SortsM.tla, well-sorted or not, read by the real parser; the sort and the term it reads are compared with the specification's."""
from vlib.core import *

W = 100


def decl():
    s = open(os.path.join(SPECS, "Sorts.tla")).read()
    return re.search(r'^Decl == "(.*)"$', s, re.M).group(1)


def read(cases, **opts):
    """cases: list of texts; what the parser says for each"""
    d = decl()
    res = replay([dict(k="sorts", decl=d, terms=cases[z:z + W], **opts) for z in range(0, len(cases), W)])
    return [x for o in res for x in o["out"]]


def judge(chk, kind, txt, o, st, sort, canon, how=""):
    chk.replayed += 1
    if st != "bad":
        chk.nontrivial.add(txt)
    ident = [kind, how, txt]
    case = dict(k="sorts", decl=decl(), terms=[txt])
    if o["v"] == "panic":
        chk.violation(case, "%s: panic: %s: %s" % (how, o, txt), ident=ident)
    elif st == "bad" and o["v"] == "ok":
        chk.violation(case, "%s: a term that is not well-sorted is taken, with sort %s: %s" % (how, o["sort"], txt), ident=ident)
    elif st == "ok" and o["v"] != "ok":
        chk.violation(case, "%s: a well-sorted term is refused: %s: %s" % (how, o, txt), ident=ident)
    elif st != "bad" and o["v"] == "ok" and o["sort"] != sort:
        chk.violation(case, "%s: sort %s, it is %s: %s" % (how, o["sort"], sort, txt), ident=ident)
    elif st != "bad" and o["v"] == "ok" and canon is not None and o["canon"] != canon:
        chk.violation(case, "%s: read as %s, it is %s: %s" % (how, o["canon"], canon, txt), ident=ident)


def expect(chk, fam, case, o, st, want, got, txt):
    chk.replayed += 1
    if st != "bad":
        chk.nontrivial.add(txt)
    ident = [fam, txt]
    if o["v"] == "panic":
        chk.violation(case, "%s: panic: %s: %s" % (fam, o, txt), ident=ident)
    elif st == "bad" and o["v"] == "ok":
        chk.violation(case, "%s: what is not well-formed is taken: %s" % (fam, txt), ident=ident)
    elif st == "ok" and o["v"] != "ok":
        chk.violation(case, "%s: what is well-formed is refused: %s: %s" % (fam, o, txt), ident=ident)
    elif st != "bad" and o["v"] == "ok" and got(o) != want:
        chk.violation(case, "%s: it says %s, it is %s: %s" % (fam, got(o), want, txt), ident=ident)


def describe(o):
    out = []
    for c in o["cmds"]:
        out.append("anchor " + " ".join(c[2]) if c[0] == "anchor" else "step " + " ".join(c[3]))
    return out


def texts(chk):
    """specs/ReadM.tla: literals, sorts, positions, logics, scopes"""
    d = decl()
    rows = chk.tlc("ReadM", dict(Fam="lit", MaxN=0)).rows
    chk.count("literals", len(rows))
    for r, o in zip(rows, read([r[1] for r in rows])):
        judge(chk, "lit", r[1], o, r[2], r[3], r[4])
    chk.sample("lit: %s" % rows[len(rows) // 2][1:])
    rows = chk.tlc("ReadM", dict(Fam="sort", MaxN=0)).rows
    chk.count("sort_definitions", len(rows))
    cases = [dict(k="sorts", decl=r[1], terms=["c"]) for r in rows]
    for r, c, o in zip(rows, cases, replay(cases)):
        o = o["out"][0]
        expect(chk, "sort", c, o.get("e", o), r[2], r[3], lambda o: o["sort"], r[1])
    chk.sample("sort: %s" % rows[len(rows) // 2][1:])
    rows = chk.tlc("ReadM", dict(Fam="pos", MaxN=0)).rows
    chk.count("positions", len(rows))
    for how, opts in [("", {}), (", definitions kept", dict(apply_defs=False)), (", lets expanded", dict(expand_lets=True))]:
        cases = [dict(k="read", problem=d + r[2], proof=r[3], **opts) for r in rows]
        for r, c, o in zip(rows, cases, replay(cases)):
            expect(chk, "pos" + how, c, o, r[4], None, lambda o: None, "%s / %s" % (r[2], r[3]))
    chk.sample("pos: %s" % rows[len(rows) // 2][1:])
    rows = chk.tlc("ReadM", dict(Fam="logic", MaxN=0)).rows
    chk.count("logics", len(rows))
    cases = []
    for r in rows:
        lg = "(set-logic %s)" % r[1] if r[1] else ""
        for n, so in ((2, "Int"), (2, "Real"), (3, "Int"), (3, "Real")):
            x = "(= %s %s)" % (r[2], "1" if False else "k")
            if n == 2:
                cases.append((dict(k="read", problem=lg + "(declare-fun k () %s)(assert %s)" % (so, x), proof="(step t (cl) :rule hole)"), r[3] == so))
            else:
                cases.append((dict(k="read", problem=lg + "(declare-fun k () %s)" % so, proof="(step t (cl %s) :rule hole)" % x), r[4] == so))
    for (c, ok), o in zip(cases, replay([c for c, _ in cases])):
        expect(chk, "logic", c, o, "ok" if ok else "bad", None, lambda o: None, "%s / %s" % (c["problem"], c["proof"]))
    chk.sample("logic: %s" % cases[len(cases) // 2][0])
    rows = chk.tlc("ReadM", dict(Fam="anch", MaxN=4 if THOROUGH else 3), workers=NPROC).rows
    chk.count("scopes", len(rows))
    cases = [dict(k="read", problem=d, proof=r[1]) for r in rows]
    for r, c, o in zip(rows, cases, replay(cases)):
        want = r[3].split(" | ") if r[3] else []
        expect(chk, "scope", c, o, r[2], want, lambda o, n=len(want): describe(o)[:n], r[1])
    chk.sample("scope: %s" % rows[len(rows) // 2][1:])


def run():
    chk = Check("C27")
    texts(chk)
    if os.environ.get("ONLY_TEXTS"): return chk.finish()
    for fam, c in [("op", dict(MaxN=3)), ("idx", {}), ("nest", dict(Depth=3 if THOROUGH else 2)), ("scope", {})]:
        t = chk.tlc("SortsM", dict(dict(Fam=fam, MaxN=0, Depth=0, Part=0, Parts=1), **c), workers=NPROC)
        rows = t.rows
        chk.count("terms_" + fam, len(rows))
        out = read([r[1] for r in rows])
        for r, o in zip(rows, out):
            if fam == "op":
                st, sub = r[2], r[-1]
                judge(chk, fam, r[1], o, st, r[3], r[4] if st != "bad" else None)
            else:
                judge(chk, fam, r[1], o, r[2], r[3], r[4] if len(r) > 4 else None)
        if fam == "op":
            rows = [r for r in rows if r[1][1:].split(" ")[0] in ("+", "-", "*", "/", "abs", "<", "=", "ite", "to_real", "to_int", "div", "mod")]
            for r, o in zip(rows, read([r[1] for r in rows], int_real=True)):
                judge(chk, fam, r[1], o, "bad" if r[-1] == "bad" else ("free" if r[2] == "free" else "ok"), r[-1], None, "with Int as a subsort of Real")
        chk.sample("%s: %s" % (fam, rows[len(rows) // 2][1:]))
    chk.finish()
