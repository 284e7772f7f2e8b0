"""Strings and regular expressions (specs/StrRules.tla): documented instances, edits of them, systematic attempts."""
from vlib.rules import *

STR = [r for r in RULES if r.startswith(("concat_", "string_", "re_"))]


def reverse_shape(r):
    """(and (= t (str.++ p s)) (= (str.len s) n)) where s drops the first n letters instead of keeping the last n."""
    m = re.match(r"\(cl \(>= \(str\.len (.*)\) (\d+)\)\)$", r[2])
    if not m:
        return False
    t, n = m.groups()
    suf = "(str.substr %s %s (- (str.len %s) %s))" % (t, n, t, n)
    return r[3] == "(cl (and (= %s (str.++ (str.substr %s 0 %s) %s)) (= (str.len %s) %s)))" % (t, t, n, suf, suf, n)


def known(rule, r):
    """Findings recorded in KNOWN_FINDINGS.txt (the repository's own tests require these steps to be accepted)."""
    if rule == "string_decompose" and r[4] == "true" and reverse_shape(r):
        return ["known-class", "string_decompose-reverse"]
    if rule in ("re_concat_unfold_pos", "re_kleene_star_unfold_pos") and "choice" in r[3]:
        return ["known-class", "re_unfold_pos-skolem"]


def run():
    chk = Check("C19")
    th = THOROUGH
    for mode, P, PX in (("cat", 4, 2), ("split", 2, 2), ("cprop", 4, 2), ("re", 2, 1)):
        P, PX = (1, 1) if th else (P, PX)
        attempts(chk, chk.tlc("StrRules", dict(Mode=mode, MaxEdits=1, Part=SEED % P, Parts=P)), rules=STR, known=known)
        attempts(chk, chk.tlc("StrRules", dict(Mode=mode, MaxEdits=0, Part=SEED % PX, Parts=PX), init="XInit", nxt="XNext", inv=("XEmit",)), rules=STR, known=known)
    chk.finish()
