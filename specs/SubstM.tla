------------------------------ MODULE SubstM ------------------------------
(* C25: substitution and free variables over every small term in which names of constants (a, b) and of
   bound variables (x, y, a) meet. The substitution lemma is checked on the specification itself. *)
EXTENDS Sem, Subst
CONSTANTS Part, Parts
VARIABLE st
p == L("p") a == L("a") b == L("b") x == L("x") y == L("y")
f(t) == T("f", <<t>>) P(t) == T("P", <<t>>) Q(t, u) == T("Q", <<t, u>>)
Bv(ns) == [k \in 1..Len(ns) |-> <<ns[k], "U">>]
B0 == {P(x), P(a), P(f(y)), Q(x, y), Q(y, x), Q(a, x), Q(x, x), Q(y, a)}
NSeq == {<<"x">>, <<"y">>, <<"a">>, <<"x", "y">>, <<"y", "a">>, <<"y", "x">>}
Qs(o, S) == {Bnd(o, Bv(s), t) : s \in NSeq, t \in S}
LetS == {<<<<"x", v>>>> : v \in {a, y, x, f(x)}} \cup {<<<<"y", v>>>> : v \in {x, a}} \cup {<<<<"a", x>>>>, <<<<"x", y>>, <<"y", x>>>>, <<<<"x", a>>, <<"a", y>>>>}
Ls(S) == {Let(s, t) : s \in LetS, t \in S}
B1 == Qs("forall", B0) \cup Qs("exists", {P(x), Q(x, y), Q(y, a)}) \cup Ls(B0)
      \cup {P(Cho(<<<<n, "U">>>>, t)) : n \in {"x", "y", "a"}, t \in B0} \cup {Q(Cho(<<<<"x", "U">>>>, t), y) : t \in {Q(x, y), P(x)}}
      \cup {Eq(Bnd("lambda", Bv(s), t), Bnd("lambda", Bv(s), p)) : s \in {<<"x">>, <<"y", "x">>, <<"a">>}, t \in {Q(x, y), Q(y, a), P(x)}}
B2 == Qs("forall", B1) \cup Ls(B1) \cup {And(<<s, t>>) : s \in {P(x), Q(x, y)}, t \in B1}
      \cup {P(Cho(<<<<n, "U">>>>, t)) : n \in {"x", "y"}, t \in B1}
B3 == {Bnd("exists", Bv(s), And(<<P(x), t>>)) : s \in {<<"y">>, <<"a">>}, t \in Qs("forall", B1)} \cup {And(<<Q(x, y), Bnd("forall", Bv(<<"y">>), t)>>) : t \in Ls(B1)}
Vs == {a, b, x, y, f(x), f(y), f(a), Cho(<<<<"x", "U">>>>, Q(x, y)), Cho(<<<<"y", "U">>>>, Q(y, a))}
Maps == {[n \in {m} |-> v] : m \in {"x", "y", "a"}, v \in Vs} \cup {[n \in {"x", "y"} |-> IF n = "x" THEN v ELSE w] : v \in {a, y, f(y), b}, w \in {x, a, f(x), b}}
        \cup {[n \in {"x", "a"} |-> IF n = "x" THEN v ELSE w] : v \in {a, y}, w \in {x, y, f(x)}}
\* one mapping per row of a long list; a mapping x |-> x is never given to the real code
MSeq == SetToSeq({m \in Maps : \A n \in DOMAIN m : m[n] # L(n)})
TSeq == SetToSeq(B0 \cup B1) \o SetToSeq(B2) \o SetToSeq(B3)
NB1 == Cardinality(B0 \cup B1)
Init == st = <<0, 0>>
Next == \/ st[2] = 0 /\ st[1] < Len(TSeq) /\ st' = <<st[1] + 1, 0>>
        \/ st[1] > 0 /\ st[2] = 0 /\ \E k \in 1..Len(MSeq) : (st[1] <= NB1 \/ (st[1] * 37 + k) % Parts = Part) /\ st' = <<st[1], k>>
DeclX == "(declare-sort U 0)(declare-fun a () U)(declare-fun b () U)(declare-fun x () U)(declare-fun y () U)(declare-fun f (U) U)(declare-fun P (U) Bool)(declare-fun Q (U U) Bool)(declare-fun p () Bool)"
NmSeq == <<"a", "b", "p", "x", "y">>
\* function symbols are free variables of a term as well
SySeq == <<"P", "Q", "a", "b", "f", "p", "x", "y">>
RECURSIVE Syms(_)
Syms(t) == (IF t.o \in {"P", "Q", "f"} THEN {t.o} ELSE {}) \cup UNION {Syms(t.a[k]) : k \in 1..Len(t.a)}
FvS(t) == Join(SelectSeq(SySeq, LAMBDA n : n \in FV(t) \cup Syms(t)), " ")
Models2 == {I \in ModelsOf({"a", "b", "P", "f", "p"}, 2, {"min"}) : I.f1["P"][0] = 0}
Lemma(t, s) == \A m \in {1, 2} : \E I \in {[v |-> [n \in {"a", "b", "x", "y", "p"} |-> IF n \in {"a", "y"} THEN 1 ELSE 0], f1 |-> [n \in {"f", "P"} |-> [e \in {0, 1} |-> (e + m) % 2]],
                        f2 |-> [n \in {"Q"} |-> [e \in {0, 1} \X {0, 1} |-> IF e[1] < e[2] THEN 1 ELSE 0]], m |-> 2, ch |-> IF m = 1 THEN "min" ELSE "max"]} :
               Ev(Sub(t, s), I) = Ev(t, [I EXCEPT !.v = [n \in DOMAIN s |-> Ev(s[n], I)] @@ I.v])
Emit == IF st[1] = 0 THEN PrintT("CASE\tdecl\t" \o DeclX)
        ELSE LET t == TSeq[st[1]] IN
          IF st[2] = 0 THEN PrintT("CASE\tfv\t" \o Str(t) \o "\t" \o FvS(t))
          ELSE LET s == MSeq[st[2]] r == Sub(t, s) ns == SelectSeq(NmSeq, LAMBDA n : n \in DOMAIN s) IN
               /\ Assert(Lemma(t, s), <<"substitution lemma fails", Str(t), s>>)
               /\ PrintT("CASE\tsub\t" \o Str(t) \o "\t" \o Join(ns, " ; ") \o "\t" \o Join([k \in 1..Len(ns) |-> Str(s[ns[k]])], " ; ") \o "\t" \o Str(Db(r, NoEnv, 0)) \o "\t" \o FvS(r))
=============================================================================
