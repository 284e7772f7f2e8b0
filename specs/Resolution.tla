----------------------------- MODULE Resolution -----------------------------
(* C08: resolution and clause manipulation.
   Chain machine: `cur` is the clause derived so far from the premises used so far (a sequence of
   literals, duplicates kept); Resolve picks a pivot of `cur` and a premise containing its complement
   (one negation more or one fewer). Every reachable (premises, cur, pivots) is a documented step.
   Exhaustive part: lists of small clauses and a conclusion; the ones with a countermodel are refuted. *)
EXTENDS Terms, Randomization
CONSTANTS Rnd,           \* 0: all choices; otherwise how many random choices at each step
          Mode,          \* "chain", "exh2", "exh3", "exh4", "rand", "manip"
          Steps,         \* number of resolutions of a chain
          MaxLen,        \* length of derived clauses
          Univ           \* which literal universe
VARIABLE st

p == L("p") q == L("q") r == L("r") s == L("s")
\* a literal: <<number of leading negations, atom name>>
RECURSIVE Neg(_, _)
Neg(n, t) == IF n = 0 THEN t ELSE Not(Neg(n - 1, t))
LT(l) == Neg(l[1], L(l[2]))
CT(c) == [k \in 1..Len(c) |-> LT(c[k])]
Compl(l) == {<<l[1] + 1, l[2]>>} \cup (IF l[1] > 0 THEN {<<l[1] - 1, l[2]>>} ELSE {})

Lits == CASE Univ = 1 -> {<<0, "p">>, <<1, "p">>, <<0, "q">>, <<1, "q">>}
          [] Univ = 2 -> {<<0, "p">>, <<1, "p">>, <<2, "p">>, <<0, "q">>, <<1, "q">>}
          [] Univ = 3 -> {<<0, "p">>, <<1, "p">>, <<2, "p">>, <<3, "p">>, <<0, "q">>, <<1, "q">>, <<0, "r">>, <<1, "r">>}
          [] Univ = 4 -> {<<0, "p">>, <<1, "p">>, <<0, "q">>, <<1, "q">>, <<0, "r">>, <<1, "r">>, <<2, "r">>, <<0, "s">>, <<1, "s">>}
          [] Univ = 5 -> {<<0, "p">>, <<1, "p">>, <<0, "q">>, <<1, "q">>, <<0, "false">>, <<1, "false">>, <<0, "true">>, <<1, "true">>}
Clauses(n) == UNION {[1..k -> Lits] : k \in 0..n}
NonEmpty(n) == UNION {[1..k -> Lits] : k \in 1..n}
FirstU == IF Rnd = 0 THEN NonEmpty(2) ELSE NonEmpty(3)
Pair == {c \in [1..2 -> Lits] : TRUE}
Some(S, w) == IF Rnd = 0 THEN S ELSE RandomSubset(IF w * Rnd > Cardinality(S) THEN Cardinality(S) ELSE w * Rnd, S)

(* Semantics *)
Atoms == {"p", "q", "r", "s"}
Vals(cs) == LET as == UNION {{c[k][2] : k \in 1..Len(c)} : c \in cs} \cap Atoms IN [as -> {0, 1}]
LitV(l, v) == LET b == IF l[2] = "true" THEN 1 ELSE IF l[2] = "false" THEN 0 ELSE v[l[2]]
              IN (b + l[1]) % 2 = 1
ClV(c, v) == \E k \in 1..Len(c) : LitV(c[k], v)
RefutedP(prem, c) == \E v \in Vals({prem[k] : k \in 1..Len(prem)} \cup {c}) :
                       (\A k \in 1..Len(prem) : ClV(prem[k], v)) /\ ~ClV(c, v)

Blank == [ph |-> "start", r |-> "resolution", prem |-> <<>>, cur |-> <<>>, piv |-> <<>>,
          set |-> {}, sok |-> TRUE]   \* the same chain on clauses as sets, while it stays one
Init == st = Blank

------------------------------------------------------------------------------
(* Chain machine: premises are chosen as the chain grows *)
NoDup(c) == \A k1, k2 \in 1..Len(c) : c[k1] = c[k2] => k1 = k2
First == /\ Mode = "chain" /\ st.ph = "start"
         /\ \E c \in Some(FirstU, 20) : st' = [st EXCEPT !.ph = "chain", !.prem = <<c>>, !.cur = c, !.set = Range(c), !.sok = NoDup(c)]
FirstPos(c, l) == CHOOSE k \in 1..Len(c) : c[k] = l /\ \A m \in 1..(k - 1) : c[m] # l
Resolvent(c, l, d, m) == RemoveNth(c, FirstPos(c, l)) \o RemoveNth(d, FirstPos(d, m))
\* the rule names the literal with fewer negations as pivot, and says whether it is in the left clause
PivArg(l, m) == IF l[1] < m[1] THEN <<LT(l), TT>> ELSE <<LT(m), FF>>
Resolve == /\ Mode = "chain" /\ st.ph = "chain" /\ Len(st.prem) <= Steps
           /\ \E k \in 1..Len(st.cur), d \in Some({z \in NonEmpty(IF Rnd = 0 THEN 2 ELSE 3) : \E k2 \in 1..Len(st.cur) : Compl(st.cur[k2]) \cap {z[m] : m \in 1..Len(z)} # {}}, 1) :
                \E m \in Compl(st.cur[k]) :
                  /\ m \in {d[z] : z \in 1..Len(d)}
                  /\ LET res == Resolvent(st.cur, st.cur[k], d, m) IN
                     /\ Len(res) <= MaxLen
                     /\ st' = [st EXCEPT !.prem = Append(@, d), !.cur = res, !.piv = @ \o PivArg(st.cur[k], m),
                                       !.sok = @ /\ NoDup(d) /\ st.cur[k] \in st.set,
                                       !.set = (@ \ {st.cur[k]}) \cup (Range(d) \ {m})]

(* Exhaustive lists; premises are added one by one, then the conclusion *)
Target == CASE Mode = "exh2" -> 2 [] Mode = "exh3" -> 3 [] Mode = "exh4" -> 4 [] Mode = "rand" -> 5 [] OTHER -> 0
PremU == CASE Mode = "exh2" -> Clauses(2) [] Mode = "exh3" -> NonEmpty(2) [] Mode = "exh4" -> Pair [] OTHER -> NonEmpty(3)
ConcU == CASE Mode = "exh2" -> Clauses(2) [] Mode = "exh3" -> Clauses(1) [] Mode = "exh4" -> {<<>>} [] OTHER -> Clauses(2)
AddPrem == /\ Mode \in {"exh2", "exh3", "exh4", "rand"} /\ st.ph = "start" /\ Len(st.prem) < Target
           /\ \E c \in Some(PremU, IF st.prem = <<>> THEN 10 ELSE 1) : st' = [st EXCEPT !.prem = Append(@, c)]
Conclude == /\ Mode \in {"exh2", "exh3", "exh4", "rand"} /\ st.ph = "start"
            /\ IF Mode = "rand" THEN Len(st.prem) \in 2..5 ELSE Len(st.prem) = Target
            /\ \E c \in Some(ConcU, 1) : st' = [st EXCEPT !.ph = "guess", !.cur = c]

------------------------------------------------------------------------------
(* Clause manipulation: contraction, weakening, reordering, tautology, as transitions from a premise *)
Count(c, l) == Cardinality({k \in 1..Len(c) : c[k] = l})
Set(c) == {c[k] : k \in 1..Len(c)}
Manip1 == /\ Mode = "manip" /\ st.ph = "start" /\ \E c \in Clauses(3) : st' = [st EXCEPT !.ph = "m0", !.prem = <<c>>]
IsContraction(c, d) == Set(c) = Set(d) /\ \A l \in Set(d) : Count(d, l) <= Count(c, l)
IsReordering(c, d) == Len(c) = Len(d) /\ \A l \in Set(c) \cup Set(d) : Count(c, l) = Count(d, l)
IsWeakening(c, d) == Len(d) >= Len(c) /\ SubSeq(d, 1, Len(c)) = c
IsTaut(c) == \E l, m \in Set(c) : l[2] = m[2] /\ (l[1] + m[1]) % 2 = 1
Manip2 == /\ Mode = "manip" /\ st.ph = "m0"
          /\ \E d \in Clauses(4) \cup {<<<<0, "true">>>>} :
             LET c == st.prem[1] IN
             \E rule \in {"contraction", "reordering", "weakening", "tautology", "none"} :
               /\ CASE rule = "contraction" -> IsContraction(c, d)
                    [] rule = "reordering" -> IsReordering(c, d)
                    [] rule = "weakening" -> IsWeakening(c, d)
                    [] rule = "tautology" -> IsTaut(c) /\ d = <<<<0, "true">>>>
                    [] OTHER -> TRUE
               /\ st' = [st EXCEPT !.ph = IF rule = "none" THEN "guess" ELSE "manip", !.r = rule, !.cur = d]

Next == First \/ Resolve \/ AddPrem \/ Conclude \/ Manip1 \/ Manip2
------------------------------------------------------------------------------
Prems == [k \in 1..Len(st.prem) |-> CT(st.prem[k])]
Row(class, rule, args) == PrintT("CASE\t" \o class \o "\t" \o rule \o "\t" \o Cls(Prems) \o "\t" \o Cl(CT(st.cur)) \o "\t" \o
                                 Join(Strs(args), " ") \o "\t0")
\* resolution preserves entailment: an invariant of the chain machine itself
Sound == st.ph \in {"chain", "manip"} => ~RefutedP(st.prem, st.cur) /\ (st.sok => st.ph = "manip" \/ ~RefutedP(st.prem, SetToSeq(st.set)))
Emit == CASE st.ph = "start" /\ st.prem = <<>> -> PrintT("CASE\tdecl\t" \o Decl)
          [] st.ph = "chain" /\ Len(st.prem) >= 2 ->
            /\ Row("ok", "strict_resolution", st.piv)
            /\ IF st.sok THEN PrintT("CASE\tok\tresolution\t" \o Cls(Prems) \o "\t" \o Cl(CT(SetToSeq(st.set))) \o "\t" \o Join(Strs(st.piv), " ") \o "\t0") ELSE TRUE
          [] st.ph = "manip" -> Row("ok", st.r, <<>>)
          [] st.ph = "guess" -> IF RefutedP(st.prem, st.cur) THEN Row("bad", "guess", <<>>) ELSE TRUE
          [] OTHER -> TRUE
=============================================================================
