------------------------------- MODULE SliceT -------------------------------
(* C24: slices made by the real code, against what a slice is. A record has the commands of a proof and of a slice
   of it, each command with the commands it depends on: premises, discharged assumptions and, for the
   end of a subproof, the command before it. Commands are named by their path (the subproofs they are in). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS File
VARIABLES t
Recs == ndJsonDeserialize(File)
Rec == Recs[t]
O == Rec.orig    Sl == Rec.slice
Key(c) == c.key
\* sequences of the record as sets
AsSet(s) == {s[k] : k \in 1..Len(s)}
Keys(P) == {P[k].key : k \in 1..Len(P)}
Of(P, key) == P[CHOOSE k \in 1..Len(P) : P[k].key = key]
Pos(P, key) == CHOOSE k \in 1..Len(P) : P[k].key = key
Deps(c) == AsSet(c.prem) \cup AsSet(c.dis) \cup AsSet(c.prev)
RECURSIVE Near(_, _)
Near(S, d) == IF d = 0 \/ S = {} THEN S ELSE LET S2 == S \cup UNION {Deps(Of(O, x)) : x \in S} IN IF S2 = S THEN S ELSE Near(S2, d - 1)
Target == Of(O, Rec.target)
\* commands whose justification is kept: the target, and what is at most Rec.dist away from it
Just == Near({Rec.target}, Rec.dist)
Within == Near({Rec.target}, Rec.dist + 1)
\* the subproofs around the target are kept: their ends, with what these depend on, and all their assumptions
Ends == AsSet(Target.encl) \cup (IF Target.isend THEN {Rec.target} ELSE {})
Around == Ends \cup UNION {Deps(Of(O, x)) : x \in Ends} \cup UNION {AsSet(Of(O, x).asm) : x \in Ends}
\* a command of a subproof cannot be kept without the subproof
Closure(S) == S \cup UNION {AsSet(Of(O, x).encl) : x \in S}
Problems ==
  LET body == SubSeq(Sl, 1, Len(Sl) - 1) ks == Keys(body) IN
  (IF Len(Sl) = 0 \/ Sl[Len(Sl)].cl # <<>> \/ Sl[Len(Sl)].encl # <<>> THEN {"no final step"} ELSE {}) \cup
  (IF ~(ks \subseteq Keys(O)) THEN {"a command that is not in the proof"} ELSE IF Cardinality(ks) # Len(body) THEN {"a command twice"} ELSE
   (IF \E k \in 1..(Len(body) - 1) : Pos(O, body[k].key) >= Pos(O, body[k + 1].key) THEN {"order"} ELSE {}) \cup
   (IF \E k \in 1..Len(body) : body[k].cl # Of(O, body[k].key).cl \/ body[k].kind # Of(O, body[k].key).kind THEN {"another clause"} ELSE {}) \cup
   (IF \E k \in 1..Len(body) : body[k].encl # Of(O, body[k].key).encl THEN {"another place"} ELSE {}) \cup
   (IF ~(Within \subseteq ks) THEN {"a dependency is missing"} ELSE {}) \cup
   (IF ~(ks \subseteq Closure(Within \cup Around)) THEN {"a command that is not needed"} ELSE {}) \cup
   (IF ~(Ends \subseteq ks) THEN {"an enclosing subproof is missing"} ELSE {}) \cup
   (IF \E k \in 1..Len(body) : LET x == body[k] y == Of(O, x.key) IN x.key \in Just \cup Ends /\ ~(x.rule = y.rule /\ x.args = y.args /\ x.prem = y.prem /\ x.dis = y.dis /\ x.isend = y.isend /\ x.ctx = y.ctx)
    THEN {"another justification"} ELSE {}) \cup
   (IF \E k \in 1..Len(body) : LET x == body[k] y == Of(O, x.key) IN x.kind = "s" /\ x.rule # "hole" /\ x.rule # y.rule THEN {"another rule"} ELSE {}))
Init == t = 1
Next == t < Len(Recs) /\ t' = t + 1
Emit == IF Problems = {} THEN TRUE ELSE PrintT("CASE\tbad\t" \o ToString(t) \o "\t" \o ToString(Problems))
=============================================================================
