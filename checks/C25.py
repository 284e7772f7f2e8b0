from vlib.core import *
from vlib.names import rename as ren
from vlib.sexp import dbs
# the same cases with other names: those the implementation would invent for a bound variable it has to rename
NAMES = [{}, {"a": "x'"}, {"a": "y'"}, {"y": "x'"}, {"b": "x'", "a": "x''"}, {"a": "y'", "b": "y''"}, {"x": "a'", "y": "a''"}]


def renrow(r, m):
    # the harness writes terms without quotes
    k = 4 if r[0] == "sub" else 2
    return r[:1] + tuple(ren(x, m) for x in r[1:k]) + tuple(ren(x, m, False) for x in r[k:-1]) + (" ".join(sorted(ren(r[-1], m, False).split())),) if m else r


def run():
    chk = Check("C25")
    for part in (range(8) if THOROUGH else [SEED % 12]):
        t = chk.tlc("SubstM", dict(Part=part, Parts=8 if THOROUGH else 12))
        decl = [r[1] for r in t.rows if r[0] == "decl"][0]
        rows = [r for r in t.rows if r[0] != "decl"]
        decls = [ren(decl, m) for m in NAMES]
        rows = [(0, r) for r in rows] + [(k, renrow(tuple(r), NAMES[k])) for n, r in enumerate(rows) for k in [n % len(NAMES)] if k]
        which = [k for k, r in rows]
        rows = [r for k, r in rows]
        cases = []
        for k, r in zip(which, rows):
            decl = decls[k]
            if r[0] == "fv":
                cases.append(dict(k="term", op="info", decl=decl, terms=[r[1]]))
            else:
                xs, vs = r[2].split(" ; "), r[3].split(" ; ")
                cases.append(dict(k="term", op="subst", decl=decl, terms=[r[1]] + [z for p in zip(xs, vs) for z in p]))
        for r, c, o in zip(rows, cases, replay(cases)):
            chk.replayed += 1
            if r[0] == "fv":
                got = " ".join(o["info"][0]["fv"]) if o.get("v") == "ok" else str(o)
                chk.count("free_variables")
                if got != r[2]:
                    chk.violation(c, "free variables of %s: {%s}, expected {%s}" % (r[1], got, r[2]), ident=r)
            else:
                what = "%s with %s -> %s" % (r[1], r[2], r[3])
                chk.count("substitutions")
                if o.get("v") != "ok":
                    chk.violation(c, "substitution of %s gave no result: %s" % (what, o), ident=r)
                elif dbs(o["t"]) != r[4]:
                    chk.violation(c, "%s = %s, expected (up to bound names) %s" % (what, o["t"], r[4]), ident=r)
                elif " ".join(o["fv"]) != r[5] or not o["same"]:
                    chk.violation(c, "free variables of %s: %s, expected %s; repeatable: %s" % (what, o["fv"], r[5], o["same"]), ident=r)
                else:
                    chk.nontrivial.add(tuple(r[1:4]))
            if chk.replayed % 5001 == 1:
                chk.sample(" ".join(r[:4]))
    chk.finish()
