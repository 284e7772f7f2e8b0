"""Elaboration: proofs written by the specifications of the proof language and of the rules, elaborated with every selection of passes; the results are checked again and validated against specs/ElabT.tla."""
from vlib.core import *
from vlib import proofm, ptree, sexp
import itertools

PASSES = ["polyeq", "local", "uncrowd", "reordering"]
DEFAULT = ["polyeq", "lia-generic", "local", "uncrowd", "reordering"]
DECL2 = "(declare-sort U 0)(declare-fun a () U)(declare-fun b () U)(declare-fun f (U) U)(declare-fun g (U U) U)"


def wrap(r, decl, args=None):
    """A proof around one rule instance."""
    prem = r[2].split(" ;; ") if r[2] else []
    s = "".join("(step h%d %s :rule hole)" % (n, p) for n, p in enumerate(prem))
    a = r[4] if args is None else args
    s += "(step t1 %s :rule %s%s%s)" % (r[3], r[1], " :premises (%s)" % " ".join("h%d" % n for n in range(len(prem))) if prem else "", " :args (%s)" % a if a else "")
    return dict(problem=decl, proof=s + "(step t2 (cl) :rule hole :premises (t1))")


def decl_of(t):
    return [r[1] for r in t.rows if r[0] == "decl"][0]


def thin(rows, cap):
    return rows[SEED % max(1, len(rows) // cap)::max(1, len(rows) // cap)][:cap] if rows else rows


def fam_rules(chk, t, rules, cap):
    d = decl_of(t)
    rows = [r for r in t.rows if r[0] == "ok" and (rules is None or r[1] in rules)]
    return [(wrap(r, d), r) for r in thin(rows, cap)]


def families(chk):
    """name -> cases, from every generator."""
    z = 4 if THOROUGH else 1
    out = {}
    G, H = proofm.GOOD, proofm.HOLE
    rows = proofm.generate(chk, **pick(proofm.conf(G + H, 4, bad=0, holes=1)))
    out["proofs"] = [(proofm.case(r, True), r) for r in thin([r for r in rows if r[1] in ("valid", "holey")], 600 * z)]
    rows = proofm.generate(chk, **pick(proofm.conf(G + H, 11, bad=0, depth=3, holes=2, sim=400 * z)))
    out["proofs"] += [(proofm.case(r, True), r) for r in thin([r for r in rows if r[1] in ("valid", "holey")], 600 * z)]
    t = chk.tlc("ParP", dict(MaxN=10, MaxDepth=3, MaxBad=0, Sim=True, Focus=False), inv=(), simulate=100 * z, depth=16)
    out["contexts"] = [(dict(problem=DECL2, proof=r[3]), r) for r in thin([r for r in t.rows if r[1] == "holey"], 300 * z)]
    t = chk.tlc("Context", dict(MaxDepth=1, Part=0, Parts=1, CParts=1), init="DInit", nxt="DNext", inv=("DEmit",))
    d = decl_of(t)
    out["binders"] = [(dict(problem=d + ("(assert (= a b))" if r[1] == "1" else ""), proof=("(assume h1 (= a b))" if r[1] == "1" else "") + r[2] + "(step tz (cl) :rule hole)"), r)
                      for r in thin([r for r in t.rows if r[0] == "ok"], 700 * z)]
    pairs = []
    for m in ("Polyeq", "PolyeqA"):
        t = chk.tlc(m, dict(MaxD=1, MaxE=0, Part=0, Parts=1))
        pairs += [(decl_of(t), r) for r in t.rows if r[0] == "pair"]
        t = chk.tlc(m, dict(MaxD=2, MaxE=0, Part=0, Parts=1))
        pairs += thin([(decl_of(t), r) for r in t.rows if r[0] == "pair"], 1000 * z)
    out["assume"] = [(dict(problem=d + "(assert %s)" % r[1], proof="(assume h1 %s)(step t2 (cl) :rule hole :premises (h1))" % r[2]), r)
                     for d, r in pairs if r[3][1] == "1" or r[5] in ("nary", "flipnary")]
    out["refl"] = [(dict(problem=d, proof="(step t1 (cl (= %s %s)) :rule refl)(step t2 (cl) :rule hole :premises (t1))" % (r[1], r[2])), r) for d, r in pairs if r[3][3] == "1"]
    out["subproof"] = [(dict(problem=d, proof="(anchor :step t1)(assume t1.h %s)(step t1.t (cl %s) :rule hole)(step t1 (cl (not %s) %s) :rule subproof :discharge (h))(step t2 (cl) :rule hole :premises (t1))" % (r[1], r[1], r[1], r[2])), r)
                       for d, r in pairs if r[3][1] == "1"]
    for m in ("EqCong", "EqCongA"):
        t = chk.tlc(m, dict(MaxEdits=0, Part=0, Parts=1))
        out.setdefault("equality", []).extend(fam_rules(chk, t, None, 1500 * z))
    t = chk.tlc("Quant", dict(MaxEdits=0, Part=0, Parts=1))
    out["quantifiers"] = fam_rules(chk, t, None, 500 * z)
    t = chk.tlc("Clausify", dict(MaxEdits=0, Part=0, Parts=1, Big=False))
    out["clausification"] = fam_rules(chk, t, None, 400 * z) + fam_rules(chk, t, ("ite_intro", "bfun_elim"), 300 * z)
    out["resolution"] = []
    for c in [dict(Mode="chain", Steps=1, MaxLen=3, Univ=2, Rnd=0), dict(Mode="chain", Steps=2, MaxLen=2, Univ=1, Rnd=0), dict(Mode="chain", Steps=6, MaxLen=4, Univ=4, Rnd=2)]:
        t = chk.tlc("Resolution", c, inv=("Emit", "Sound"), workers=1 if c["Rnd"] else NPROC)
        d = decl_of(t)
        for r in thin([r for r in t.rows if r[0] == "ok"], 700 * z):
            out["resolution"] += [(wrap(r, d), r), (wrap(r, d, ""), "noargs")] if r[1] != "strict_resolution" else [(wrap(r, d), r)]
    t = chk.tlc("Resolution", dict(Mode="manip", Steps=0, MaxLen=0, Univ=1, Rnd=0), inv=("Emit", "Sound"))
    out["manipulation"] = fam_rules(chk, t, None, 500 * z)
    return out


def pick(c):
    return dict(consts=c["consts"], sim=c["sim"], ign=c["ign"])


def vd(o):
    return "noempty" if o.get("v") == "invalid" and o.get("msg") == "noempty" else o.get("v")


def pipes(n):
    """the pass lists for the n-th case"""
    subs = [list(p) for k in range(1, 5) for c in itertools.combinations(PASSES, k) for p in itertools.permutations(c)]
    if THOROUGH:
        return [DEFAULT, DEFAULT + DEFAULT] + subs[n % 7::7]
    return [DEFAULT, subs[(n * 7) % len(subs)]]


BINDERS = ("forall", "exists", "choice", "lambda", "let")


def bound(e):
    """names bound in an expression, with repetitions; "let" if one of the binders is a let"""
    if isinstance(e, str):
        return []
    out = [x for c in e for x in bound(c)]
    if len(e) == 3 and e[0] in BINDERS:
        out += [x[0] for x in e[1]] + (["let"] if e[0] == "let" else [])
    return out


def negs(e):
    n = 0
    while not isinstance(e, str) and e[0] == "not":
        n, e = n + 1, e[1]
    return n


def known(name, c, row):
    """The classes of inputs that are listed as known findings, by features of the input alone."""
    if name == "assume" and row[3][1] == "0":
        return "assume-nary"
    if name == "refl" and row[3][1] == "0":
        a, b = bound(sexp.parse_all(row[1])[0]), bound(sexp.parse_all(row[2])[0])
        if "let" in a + b or set(a) & set(b) or len(set(a)) < len(a) or len(set(b)) < len(b):
            return "refl-rename"
    if name == "resolution" and row == "noargs":
        cls = [[negs(l) for l in x[2][1:]] for x in sexp.parse_all(c["proof"])]
        if any(n > 1 for x in cls for n in x):
            return "resolution-double-negation"
    return None


def elaborations(chk, fam):
    cases, meta, recs = [], [], []
    for name, rows in fam.items():
        cs, info = [r[0] for r in rows], [r[1] for r in rows]
        base = replay([dict(c, k="proof") for c in cs])
        ast = replay([dict(c, k="ast") for c in cs])
        for n, (c, o, a) in enumerate(zip(cs, base, ast)):
            chk.count("cases_" + name)
            if vd(o) not in ("valid", "holey"):
                chk.count("not_accepted_" + name)
                continue
            kn = known(name, c, info[n])
            for p in pipes(n):
                cases.append(dict(c, k="elab", pipeline=p, rotate=n % 2 == 0, sharing=n % 3 == 0))
                meta.append((name, vd(o), kn, a))
    res = replay(cases)
    idx = []
    for m, (c, o, (name, was, kn, a)) in enumerate(zip(cases, res, meta)):
        chk.replayed += 1
        ident = [name, c["pipeline"], c["rotate"], c["proof"]]
        if kn:
            chk.count("known_class_" + kn)
        else:
            chk.nontrivial.add((name, c["proof"]))
        kid = ["known-class", kn] if kn else None
        if o.get("v") != was:
            chk.violation(c, "%s: elaboration with %s: %s: %s" % (name, c["pipeline"], json.dumps(o)[:300], c["proof"]), ident=kid or ["run"] + ident)
            continue
        for kind in ("direct", "re", "direct_el", "re_el"):
            if kind.endswith("el") and not ("polyeq" in c["pipeline"] and "local" in c["pipeline"]):
                continue
            if vd(o[kind]) != was:
                chk.violation(c, "%s: elaborated with %s, %s check says %s: %s => %s" % (name, c["pipeline"], kind, json.dumps(o[kind])[:200], c["proof"], o["text"]), ident=kid or ["check", kind] + ident)
                break
        if not kn:
            recs.append(dict(orig=brief(a["cmds"]), elab=brief(o["cmds"]), asserted=a["premises"], passes=c["pipeline"]))
            idx.append(m)
    chk.count("elaborations", len(cases))
    W = 4000
    for z in range(0, len(recs), W):
        fn = os.path.join(BUILD, "elab-%d.ndjson" % os.getpid())
        with open(fn, "w") as f:
            for x in recs[z:z + W]:
                f.write(json.dumps(x) + "\n")
        t = chk.tlc("ElabT", dict(File=fn))
        os.unlink(fn)
        for r in t.rows:
            n = idx[z + int(r[1]) - 1]
            chk.violation(cases[n], "%s: elaborated with %s: %s: %s => %s" % (meta[n][0], cases[n]["pipeline"], r[2], cases[n]["proof"], res[n]["text"]), ident=["shape", meta[n][0], cases[n]["pipeline"], cases[n]["rotate"], cases[n]["proof"]])
    if idx:
        chk.sample("%s: %s => %s" % (cases[idx[-1]]["pipeline"], cases[idx[-1]]["proof"], res[idx[-1]]["text"][:300]))


def brief(cmds):
    return [dict(key=r["key"], kind=r["kind"], cl=r["cl"], rule=r["rule"], prem=r["prem"], encl=r["encl"], isend=r["isend"]) for r in ptree.flatten(cmds)]


def run():
    chk = Check("C22")
    elaborations(chk, families(chk))
    chk.finish()
