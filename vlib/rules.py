"""Replay of derivation attempts (specs/Attempt.tla) into the real rule checkers."""
from .core import *
from .rulenames import RULES


def attempts(chk, t, all_rules=True, limit=60, rules=None, skip_ok=(), opts=None, known=None):
    """Replay the rows of one TLC run. Accepting a `bad` attempt or refusing an `ok` one is a violation."""
    decl = [r[1] for r in t.rows if r[0] == "decl"][0]
    rows = [r for r in t.rows if r[0] in ("ok", "bad")]
    return attempts_rows(chk, decl, rows, all_rules, limit, rules, opts, known)


def mkcase(decl, r, rules, opts=None):
    prem = [p[4:-1].strip() if p != "(cl)" else "" for p in r[2].split(" ;; ")] if r[2] else []
    c = dict(k="step", decl=decl, prem=prem, cl=r[3][4:-1] if r[3] != "(cl)" else "", args=r[4], rules=rules)
    if opts:
        c.update(opts)
    return c


def attempts_rows(chk, decl, rows, all_rules=True, limit=60, rules=None, opts=None, known=None):
    cases = []
    for r in rows:
        if r[0] == "ok":
            rs = [r[1]]
        else:
            rs = rules or (RULES if all_rules else [r[1]])
        cases.append(mkcase(decl, r, rs, opts))
    res = replay(cases, limit=limit)
    for r, c, o in zip(rows, cases, res):
        chk.replayed += 1
        text = "%s  %s |- %s  :args (%s)" % (r[1], r[2], r[3], r[4])
        if r[0] == "ok":
            chk.count("documented_instances")
            if r[1] not in o.get("acc", []):
                chk.violation(c, "documented instance not accepted: %s -- %s" % (text, json.dumps(o)[:200]), ident=["ok"] + r[1:5])
            else:
                chk.nontrivial.add(tuple(r[1:5]))
        else:
            chk.count("refuted_attempts")
            if o.get("v") == "perr":
                chk.count("rejected_by_parser")
            if o.get("pan"):
                chk.count("panics_on_refuted", len(o["pan"]))
            for rule in o.get("acc", []):
                chk.violation(dict(c, rules=[rule]), "unsound step accepted by %s (mutant of %s)" % (rule, text), ident=(known and known(rule, r)) or ["bad", rule] + r[2:5])
        if chk.replayed % 3001 == 1:
            chk.sample(text + " [" + r[0] + "]")
    return res
