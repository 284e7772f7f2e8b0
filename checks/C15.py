from vlib.rules import *
from vlib.names import rename

# other names for the same documents: those the implementation would invent for a bound variable it has to rename
NAMES = [{"a": "x'", "b": "y'"}, {"a": "y'", "b": "x'"}, {"x": "a'", "y": "a''"}, {"a": "x'", "b": "x''"}]

def ctx_replay(chk, t):
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    rows = [r for r in t.rows if r[0] in ("ok", "bad")]
    rows += [[r[0], r[1], rename(r[2], NAMES[n // 3 % len(NAMES)]), n // 3 % len(NAMES)] for n, r in enumerate(rows) if n % 3 == 0]
    decls = [rename(decl, m) for m in NAMES]
    cases = []
    for r in rows:
        hyp = r[1] == "1"
        if len(r) > 3 and isinstance(r[3], int):
            m = NAMES[r[3]]
            cases.append(dict(k="proof", problem=decls[r[3]] + (rename("(assert (= a b))", m) if hyp else ""),
                              proof=(rename("(assume h1 (= a b))", m) if hyp else "") + r[2] + "(step tz (cl) :rule hole)"))
            continue
        cases.append(dict(k="proof", problem=decl + ("(assert (= a b))" if hyp else ""),
                          proof=("(assume h1 (= a b))" if hyp else "") + r[2] + "(step tz (cl) :rule hole)"))
    for r, c, o in zip(rows, cases, replay(cases)):
        chk.replayed += 1
        v = o.get("v")
        chk.count("%s:%s" % (r[0], v))
        if r[0] == "bad" and v in ("valid", "holey"):
            chk.violation(c, "derivation of a refuted equality accepted: %s" % r[2], ident=["bad", r[1], r[2]])
        if r[0] == "ok":
            if v != "holey":
                chk.violation(c, "documented derivation not accepted: %s -- %s" % (r[2], json.dumps(o)[:200]), ident=["ok", r[1], r[2]])
            else:
                chk.nontrivial.add(r[2])
        if r[0] == "bad" and v in ("crash", "hang"):
            chk.violation(c, "no verdict (%s) on: %s" % (v, r[2]), ident=["bad", r[1], r[2]])
        if chk.replayed % 3001 == 1:
            chk.sample(r[2])

def run():
    chk = Check("C15")
    q = 1 if THOROUGH else 4
    ctx_replay(chk, chk.tlc("Context", dict(MaxDepth=1, Part=SEED % q, Parts=1, CParts=q)))
    ctx_replay(chk, chk.tlc("Context", dict(MaxDepth=2, Part=SEED % 40, Parts=2000, CParts=40)))
    ctx_replay(chk, chk.tlc("Context", dict(MaxDepth=1, Part=0, Parts=1, CParts=1), init="DInit", nxt="DNext", inv=("DEmit",)))
    chk.finish()
