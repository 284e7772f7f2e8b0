-------------------------------- MODULE ParP --------------------------------
(* C06: proofs with nested subproofs that assign variables, and reflexivity steps that depend on all the
   enclosing assignments; the workers of the parallel checker share what they know about each subproof. *)
EXTENDS Sem, Subst, Randomization
CONSTANTS MaxN, MaxDepth, MaxBad, Sim, Focus   \* Focus: only assignments and steps whose substituted terms are nowhere in the proof
VARIABLE st
a == L("a") b == L("b")
f(t) == T("f", <<t>>) g(t, u) == T("g", <<t, u>>)
V(n) == <<n, L("")>>   As(n, t) == <<n, t>>
IsV(h) == h[2].o = ""
Arg(h) == IF IsV(h) THEN "(" \o h[1] \o " U)" ELSE "(:= (" \o h[1] \o " U) " \o Str(h[2]) \o ")"
ArgsAt(d, env) ==
  LET x(k) == L("x" \o ToString(k)) n == "x" \o ToString(d) m == "y" \o ToString(d) IN
  IF Focus THEN CASE d = 1 -> {<<As(n, f(b))>>, <<As(n, b), As(m, g(x(1), a))>>}
                  [] d = 2 -> {<<As(n, f(x(1)))>>, <<As(n, g(x(1), x(1))), As(m, f(x(2)))>>}
                  [] OTHER -> {<<As(n, g(x(d - 1), x(d - 2)))>>, <<As(n, f(x(d - 1)))>>}
  ELSE CASE d = 1 -> {<<As(n, a)>>, <<As(n, f(b))>>, <<V(n)>>, <<As(n, b), As(m, g(x(1), a))>>}
    [] d = 2 -> {<<As(n, f(x(1)))>>, <<As(n, g(x(1), x(1)))>>, <<As(n, x(1)), As(m, f(x(2)))>>, <<V(n), As(m, g(x(2), x(1)))>>}
    [] OTHER -> {<<As(n, g(x(d - 1), x(d - 2)))>>, <<As(n, f(g(x(d - 1), x(d - 1))))>>}
\* the substitution after one more anchor
RECURSIVE Ext(_, _)
Ext(s, gs) == IF gs = <<>> THEN s ELSE Ext(IF IsV(gs[1]) THEN [w \in (DOMAIN s) \ {gs[1][1]} |-> s[w]] ELSE (gs[1][1] :> Sub(gs[1][2], s)) @@ s, Tail(gs))
Fr(id, s, raw, vs) == [id |-> id, s |-> s, raw |-> raw, vs |-> vs, n |-> 0]
Top == st.fr[Len(st.fr)]
Depth == Len(st.fr) - 1
Vars == UNION {st.fr[k].vs : k \in 1..Len(st.fr)}
Final == "(step z (cl) :rule hole)"
Emit == IF st.n = 0 \/ Depth > 0 \/ (Sim /\ st.n < 5) THEN TRUE
        ELSE PrintT("CASE\tproof\t" \o (IF st.err = "" THEN "holey" ELSE "invalid") \o "\t" \o st.err \o "\t" \o Join(st.ln, "") \o Final)
Live == (Sim => Emit)
Pick(S, n) == IF ~Sim \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Id == (IF Depth = 0 THEN "" ELSE Top.id \o ".") \o "t" \o ToString(Top.n)
Bump(s2) == [s2 EXCEPT !.n = @ + 1, !.fr[Len(st.fr)].n = @ + 1]
Terms == IF Focus THEN LET v == L("x" \o ToString(Depth)) IN {v, f(v), g(v, v)}
         ELSE LET v == {L(w) : w \in Vars} IN v \cup {f(t) : t \in v} \cup {g(t, u) : t \in v, u \in v} \cup {f(g(t, t)) : t \in v}
\* t with only the variables of W replaced
Part(t, W) == Sub(t, [w \in (DOMAIN Top.s) \cap W |-> Top.s[w]])
Reflx(t, u) == LET l == Sub(t, Top.s) r == Sub(u, Top.s) IN t = u \/ l = u \/ t = r \/ l = r
Line(t, u) == "(step " \o Id \o " (cl " \o Str(Eq(t, u)) \o ") :rule refl)"
Refl == Live /\ st.n < MaxN /\ Depth > 0 /\ \E t \in Pick(Terms, 3) : \E W \in IF Focus THEN {{}} ELSE {Vars} \cup {{w} : w \in Vars} : \E sw \in BOOLEAN :
          LET u == IF Focus /\ ~IsV(Top.raw) THEN Sub(t, Top.raw[1] :> Top.raw[2]) ELSE Part(t, W) IN Reflx(t, u) /\ st' = Bump([st EXCEPT !.ln = Append(@, IF sw THEN Line(u, t) ELSE Line(t, u))])
Bad == Live /\ st.n < MaxN /\ Depth > 0 /\ st.bad < MaxBad /\ \E t \in Pick(Terms, 2) : \E u \in {a, f(f(a)), g(a, b)} :
          ~Reflx(t, u) /\ st' = Bump([st EXCEPT !.ln = Append(@, Line(t, u)), !.bad = @ + 1, !.err = IF @ = "" THEN Id ELSE @])
Outer == Live /\ st.n < MaxN /\ Depth = 0 /\ Top.n < 2 /\ st' = Bump([st EXCEPT !.ln = Append(@, "(step " \o Id \o " (cl (= a a)) :rule eq_reflexive)")])
Open == Live /\ st.n < MaxN /\ Depth < MaxDepth /\ \E gs \in ArgsAt(Depth + 1, Top.s) :
          LET s1 == Bump([st EXCEPT !.ln = Append(@, "(anchor :step " \o Id \o " :args (" \o Join([k \in 1..Len(gs) |-> Arg(gs[k])], " ") \o "))")])
          IN st' = [s1 EXCEPT !.fr = Append(@, Fr(Id, Ext(Top.s, gs), gs[1], {gs[k][1] : k \in 1..Len(gs)}))]
Close == Live /\ Depth > 0 /\ Top.n >= 1 /\ st' = [st EXCEPT !.ln = Append(@, "(step " \o Top.id \o " (cl (= b b)) :rule hole)"), !.n = @ + 1, !.fr = SubSeq(@, 1, Depth)]
Init == st = [n |-> 0, ln |-> <<>>, fr |-> <<Fr("", <<>>, V(""), {})>>, err |-> "", bad |-> 0]
Next == Refl \/ Bad \/ Outer \/ Open \/ Close
=============================================================================
