-------------------------------- MODULE Drup --------------------------------
(* C09: DRUP/DRAT traces. State: premise clauses, the clause database, the trace so far.
   AddRup adds a clause that follows by unit propagation, AddRat a resolution-asymmetric tautology,
   AddAny an arbitrary clause; Delete removes a clause of the database. *)
EXTENDS Terms, Randomization
CONSTANTS Mode,      \* "trace" (only justified additions), "guess" (arbitrary additions), "core" (from an unsatisfiable set)
          NPrem, NSteps, Univ, W
VARIABLE st

RECURSIVE Neg(_, _)
Neg(n, t) == IF n = 0 THEN t ELSE Not(Neg(n - 1, t))
LT(l) == Neg(l[1], L(l[2]))
CT(c) == [k \in 1..Len(c) |-> LT(c[k])]
Lits == CASE Univ = 1 -> {<<0, "p">>, <<1, "p">>, <<0, "q">>, <<1, "q">>}
          [] Univ = 2 -> {<<0, "p">>, <<1, "p">>, <<0, "q">>, <<1, "q">>, <<0, "r">>, <<1, "r">>}
          [] Univ = 3 -> {<<0, "p">>, <<1, "p">>, <<2, "p">>, <<0, "q">>, <<1, "q">>, <<0, "r">>, <<1, "r">>, <<3, "r">>, <<0, "s">>, <<1, "s">>}
ClausesOf(lo, hi) == UNION {[1..k -> Lits] : k \in lo..hi}
Some(S, n) == IF W = 0 THEN S ELSE RandomSubset(IF n * W > Cardinality(S) THEN Cardinality(S) ELSE n * W, S)

(* a literal as <<polarity, atom>>, clauses as sets *)
Pol(l) == <<l[1] % 2, l[2]>>
PC(c) == {Pol(c[k]) : k \in 1..Len(c)}
NegP(l) == <<1 - l[1], l[2]>>
RECURSIVE Propagate(_, _)
\* set of true literals reached from `asg` by unit propagation; contains both signs of an atom iff conflict
Propagate(db, asg) ==
  IF \E l \in asg : NegP(l) \in asg THEN asg
  ELSE LET live == {c \in db : c \cap asg = {}}
           red == {{l \in c : NegP(l) \notin asg} : c \in live}
       IN IF {} \in red THEN asg \cup {<<0, "!">>, <<1, "!">>}
          ELSE LET units == UNION {c \in red : Cardinality(c) = 1}
               IN IF units = {} THEN asg ELSE Propagate(db, asg \cup units)
Conflict(s) == \E l \in s : NegP(l) \in s
Rup(db, c) == Conflict(Propagate(db, {NegP(l) : l \in c}))
DB(s) == {PC(c) : c \in s}
Rat(db, c) == /\ c # <<>>
              /\ LET piv == Pol(c[1]) IN
                 \A d \in db : NegP(piv) \in d => Rup(db, (d \ {NegP(piv)}) \cup PC(c))

(* Semantics *)
Vals == [{"p", "q", "r", "s"} -> {0, 1}]
ClV(c, v) == \E k \in 1..Len(c) : (v[c[k][2]] + c[k][1]) % 2 = 1
RefutedP(prem, c) == \E v \in Vals : (\A k \in 1..Len(prem) : ClV(prem[k], v)) /\ ~ClV(c, v)

Init == st = [ph |-> "prem", prem |-> <<>>, db |-> {}, args |-> <<>>, last |-> <<>>, rat |-> FALSE, cl |-> <<>>, n |-> 0]
AddPrem == /\ Mode # "core" /\ st.ph = "prem" /\ Len(st.prem) < NPrem
           /\ \E c \in Some(ClausesOf(1, IF Univ = 1 THEN 2 ELSE 3), IF st.prem = <<>> THEN 8 ELSE 1) :
                st' = [st EXCEPT !.prem = Append(@, c), !.db = @ \cup {c}]
\* the four binary clauses over p and q: unsatisfiable, but not by unit propagation alone
Core == << <<<<0, "p">>, <<0, "q">>>>, <<<<1, "p">>, <<0, "q">>>>, <<<<0, "p">>, <<1, "q">>>>, <<<<1, "p">>, <<1, "q">>>> >>
AddCore == /\ Mode = "core" /\ st.ph = "prem" /\ st.prem = <<>>
           /\ st' = [st EXCEPT !.prem = Core, !.db = Range(Core), !.ph = "trace"]
Start == st.ph = "prem" /\ Len(st.prem) >= 1 /\ st' = [st EXCEPT !.ph = "trace"]
Add(c, isRat) == st' = [st EXCEPT !.db = @ \cup {c}, !.args = Append(@, T("cl", CT(c))), !.last = c, !.rat = @ \/ isRat, !.n = @ + 1]
AddU == UNION {[1..k -> Lits] : k \in 0..2}
AddRup == /\ st.ph = "trace" /\ st.n < NSteps /\ Mode \in {"trace", "core"}
          /\ \E c \in Some({z \in AddU : z \notin st.db /\ Rup(DB(st.db), PC(z))}, 1) : Add(c, FALSE)
AddRat == /\ st.ph = "trace" /\ st.n < NSteps /\ Mode \in {"trace", "core"}
          /\ \E c \in Some({z \in AddU : z \notin st.db /\ ~Rup(DB(st.db), PC(z)) /\ Rat(DB(st.db), z)}, 1) : Add(c, TRUE)
AddAny == /\ st.ph = "trace" /\ st.n < NSteps /\ Mode = "guess"
          /\ \E c \in Some(AddU, 2) : Add(c, FALSE)
Delete == /\ st.ph = "trace" /\ st.n < NSteps /\ Mode # "tempt"
          /\ \E c \in st.db \ {st.last, <<>>} :
               st' = [st EXCEPT !.db = @ \ {c}, !.args = Append(@, T("delete", <<T("cl", CT(c))>>)), !.n = @ + 1]
EndEmpty == /\ st.ph = "trace" /\ Mode \in {"trace", "core"} /\ <<>> \in st.db /\ st' = [st EXCEPT !.ph = "ok", !.cl = <<>>]
EndRup == /\ st.ph = "trace" /\ Mode \in {"trace", "core"} /\ ~st.rat /\ st.n > 0 /\ st.last \in st.db /\ st.last # <<>>
          /\ st' = [st EXCEPT !.ph = "ok", !.cl = st.last]
\* anything may be claimed as the conclusion
EndGuess == /\ st.ph = "trace" /\ st.n > 0
            /\ \E c \in {st.last, <<>>} : st' = [st EXCEPT !.ph = "guess", !.cl = c]
\* one unjustified clause, after which the refutation is easy
Tempt == /\ Mode = "tempt" /\ st.ph = "trace" /\ st.n = 0
         /\ \E c \in Some({z \in AddU : z \notin st.db \cup {<<>>} /\ ~Rup(DB(st.db), PC(z)) /\ ~Rat(DB(st.db), z) /\ Rup(DB(st.db) \cup {PC(z)}, {})}, 2) : Add(c, FALSE)
Fall == /\ Mode = "tempt" /\ st.ph = "trace" /\ st.n = 1 /\ Add(<<>>, FALSE)
Next == Tempt \/ Fall \/ AddCore \/ AddPrem \/ Start \/ AddRup \/ AddRat \/ AddAny \/ Delete \/ EndEmpty \/ EndRup \/ EndGuess

\* justified traces only ever conclude consequences: checked on the specification itself
Sound == st.ph = "ok" => ~RefutedP(st.prem, st.cl)
ArgS(t) == IF t.o = "cl" THEN Cl(t.a) ELSE "(@d " \o Cl(t.a[1].a) \o ")"
Row(class, rule) == PrintT("CASE\t" \o class \o "\t" \o rule \o "\t" \o Cls([k \in 1..Len(st.prem) |-> CT(st.prem[k])]) \o "\t" \o
                           Cl(CT(st.cl)) \o "\t" \o Join([k \in 1..Len(st.args) |-> ArgS(st.args[k])], " ") \o "\t0")
Emit == CASE st.ph = "prem" /\ st.prem = <<>> -> PrintT("CASE\tdecl\t" \o Decl)
          [] st.ph = "ok" -> Row("ok", "drat") /\ (IF st.rat THEN TRUE ELSE Row("ok", "drup"))
          [] st.ph = "guess" -> IF RefutedP(st.prem, st.cl) THEN Row("bad", "drat") ELSE TRUE
          [] OTHER -> TRUE
=============================================================================
