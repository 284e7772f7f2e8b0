from vlib.rules import *

FAMILY = "resolution th_resolution strict_resolution contraction tautology weakening reordering shuffle drup drat and_intro or".split()


def run():
    chk = Check("C08")
    # 1. chains: every resolvent is accepted with its pivots (also by the elaborated and strict variants) and without them
    runs = [dict(Mode="chain", Steps=1, MaxLen=3, Univ=2, Rnd=0), dict(Mode="chain", Steps=2, MaxLen=2, Univ=1, Rnd=0),
            dict(Mode="chain", Steps=6, MaxLen=4, Univ=4, Rnd=4)]
    if THOROUGH:
        runs += [dict(Mode="chain", Steps=1, MaxLen=3, Univ=3, Rnd=0), dict(Mode="chain", Steps=3, MaxLen=2, Univ=1, Rnd=0),
                 dict(Mode="chain", Steps=6, MaxLen=5, Univ=4, Rnd=6)]
    for consts in runs:
        t = chk.tlc("Resolution", consts, inv=("Emit", "Sound"), workers=1 if consts["Rnd"] else NPROC)
        decl = [r[1] for r in t.rows if r[0] == "decl"][0]
        rows = [r for r in t.rows if r[0] == "ok"]
        cases, meta = [], []
        for r in rows:
            if r[1] == "strict_resolution":
                vs = (("strict_resolution", r[4], False), ("resolution", "", False))
            else:
                vs = (("resolution", r[4], False), ("th_resolution", r[4], True), ("th_resolution", "", False))
            for rule, args, el in vs:
                c = mkcase(decl, r[:4] + [args], [rule], dict(elaborated=el))
                cases.append(c)
                meta.append((rule, args, r))
        for (rule, args, r), c, o in zip(meta, cases, replay(cases)):
            chk.replayed += 1
            chk.count("chains_replayed")
            if rule not in o.get("acc", []):
                chk.violation(c, "resolution chain not accepted by %s: %s |- %s :args (%s): %s" % (rule, r[2], r[3], args, json.dumps(o)[:150]),
                              ident=["ok", rule, r[2], r[3], args])
        chk.sample("chain %s |- %s :args (%s)" % tuple(rows[len(rows) // 2][2:5]))
        # wrong conclusions and pivots for these chains
        bad = []
        for n, r in enumerate(rows[:: max(1, len(rows) // (4000 if not THOROUGH else 20000))]):
            bad.append(r)
        mutate_chains(chk, decl, bad)
    # 2. clause manipulation, exhaustively
    t = chk.tlc("Resolution", dict(Mode="manip", Steps=0, MaxLen=0, Univ=1 if not THOROUGH else 2, Rnd=0), inv=("Emit", "Sound"))
    attempts(chk, t, rules=FAMILY)
    # 3. exhaustive small premise lists with every conclusion
    runs = [dict(Mode="exh2", Univ=2), dict(Mode="exh2", Univ=5), dict(Mode="exh3", Univ=1), dict(Mode="exh4", Univ=1)]
    if THOROUGH:
        runs += [dict(Mode="exh3", Univ=2), dict(Mode="exh2", Univ=3), dict(Mode="exh2", Univ=4)]
    for consts in runs:
        t = chk.tlc("Resolution", dict(consts, Steps=0, MaxLen=0, Rnd=0))
        attempts(chk, t, rules=FAMILY[:10])
    t = chk.tlc("Resolution", dict(Mode="rand", Steps=0, MaxLen=0, Univ=4, Rnd=4 if not THOROUGH else 7), workers=1)
    attempts(chk, t, rules=FAMILY[:10])
    chk.finish()


def lit(t):
    n = 0
    while t.startswith("(not "):
        n, t = n + 1, t[5:-1]
    return n, t


def mutate_chains(chk, decl, rows):
    """Refuted variants of chains with explicit pivots: the semantics is re-evaluated per variant by the truth-table
    module of the specification (Resolution!RefutedP), here restated for the emitted clauses."""
    import itertools, random
    rnd = random.Random(SEED)

    def lits(c):
        body = c[4:-1] if c != "(cl)" else ""
        out, depth, cur = [], 0, ""
        for ch in body:
            if ch == " " and depth == 0:
                if cur:
                    out.append(cur)
                cur = ""
                continue
            depth += ch == "("
            depth -= ch == ")"
            cur += ch
        return out + ([cur] if cur else [])

    def refuted(prem, c):
        cls = [[lit(x) for x in k] for k in prem + [c]]
        atoms = sorted({a for k in cls for _, a in k} - {"true", "false"})
        for v in itertools.product((0, 1), repeat=len(atoms)):
            m = dict(zip(atoms, v), true=1, false=0)
            ev = [any((m[a] + n) % 2 == 1 for n, a in k) for k in cls]
            if all(ev[:-1]) and not ev[-1]:
                return True
        return False
    cases, meta = [], []
    for r in rows:
        prem = [lits(p) for p in r[2].split(" ;; ")]
        cl, args = lits(r[3]), lits("(cl " + r[4] + ")")
        var = []
        for k in range(len(cl)):
            var.append((prem, cl[:k] + cl[k + 1:], args))
            var.append((prem, cl[:k] + ["(not %s)" % cl[k]] + cl[k + 1:], args))
        for i in range(len(prem)):
            for k in range(len(prem[i])):
                var.append((prem[:i] + [prem[i][:k] + ["(not %s)" % prem[i][k]] + prem[i][k + 1:]] + prem[i + 1:], cl, args))
            var.append((prem[:i] + [prem[i] + ["p"]] + prem[i + 1:], cl, args))
        for k in range(0, len(args), 2):
            na = list(args)
            na[k + 1] = "false" if args[k + 1] == "true" else "true"
            for c2 in (cl[:-1], cl[1:], []):
                var.append((prem, c2, na))
        for pr, c, a in rnd.sample(var, min(6, len(var))):
            if refuted(pr, c):
                row = ["bad", "resolution", " ;; ".join("(cl%s)" % "".join(" " + x for x in k) for k in pr),
                       "(cl%s)" % "".join(" " + x for x in c), " ".join(a)]
                cases.append(row)
    attempts_rows(chk, decl, cases, rules=["resolution", "strict_resolution", "th_resolution"])
