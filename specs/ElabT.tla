------------------------------- MODULE ElabT -------------------------------
(* C22: elaborated proofs made by the real code, against the original. A record has the commands of the proof that was
   elaborated, the commands of the result, the asserted terms of the problem and the passes that were run.
   Elaboration is a sequence of passes over the proof; each replaces steps by derivations of the same clause from the
   same premises. So whatever was proved outside of subproofs still is, nothing new is taken for
   granted, and the assumptions that are left are assertions of the problem, verbatim if polyeq was run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS File
VARIABLES t
Recs == ndJsonDeserialize(File)
Rec == Recs[t]
O == Rec.orig    El == Rec.elab
AsSet(s) == {s[k] : k \in 1..Len(s)}
Top(P) == {k \in 1..Len(P) : P[k].encl = <<>>}
ClausesOf(P, ks) == {AsSet(P[k].cl) : k \in ks}
Trusted == {"hole", "trust", "lia_generic", "mystery", "mystery2"}
Is(P, k, rs) == P[k].kind = "s" /\ P[k].rule \in rs
HolesOf(P) == {k \in 1..Len(P) : Is(P, k, Trusted)}
AssumesOf(P) == {k \in Top(P) : P[k].kind = "a"}
\* a command of the result depends only on commands before it that are visible from it
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
At(P, key) == {k \in 1..Len(P) : P[k].key = key}
WellFounded == \A k \in 1..Len(El) : \A x \in AsSet(El[k].prem) : \E j \in At(El, x) : j < k /\ Prefix(El[j].encl, El[k].encl \o (IF El[k].isend THEN <<El[k].key>> ELSE <<>>))
Concludes(P) == \E k \in Top(P) : P[k].cl = <<>> /\ P[k].kind = "s"
Problems ==
  (IF ~(\A c \in ClausesOf(O, Top(O)) : c \in ClausesOf(El, Top(El))) THEN {"a clause is no longer proved"} ELSE {}) \cup
  (IF Concludes(O) # Concludes(El) THEN {"the empty clause"} ELSE {}) \cup
  (IF Concludes(O) /\ El[Len(El)].cl # <<>> /\ O[Len(O)].cl = <<>> THEN {"the last step"} ELSE {}) \cup
  (IF ~(ClausesOf(El, HolesOf(El)) \subseteq ClausesOf(O, HolesOf(O))) THEN {"a new clause is trusted"} ELSE {}) \cup
  (IF Cardinality(HolesOf(El)) > Cardinality(HolesOf(O)) THEN {"more trusted steps"} ELSE {}) \cup
  (IF "polyeq" \in AsSet(Rec.passes) /\ ~(\A k \in AssumesOf(El) : El[k].cl[1] \in AsSet(Rec.asserted)) THEN {"an assumption that is not asserted"} ELSE {}) \cup
  (IF "polyeq" \notin AsSet(Rec.passes) /\ ~(ClausesOf(El, AssumesOf(El)) \subseteq ClausesOf(O, AssumesOf(O))) THEN {"a new assumption"} ELSE {}) \cup
  (IF Cardinality(AssumesOf(El)) > Cardinality(AssumesOf(O)) THEN {"more assumptions"} ELSE {}) \cup
  (IF ~WellFounded THEN {"a premise is not visible"} ELSE {})
Init == t = 1
Next == t < Len(Recs) /\ t' = t + 1
Emit == IF Problems = {} THEN TRUE ELSE PrintT("CASE\tbad\t" \o ToString(t) \o "\t" \o ToString(Problems))
=============================================================================
