------------------------------ MODULE AssumeD ------------------------------
(* C03 (and C30): what a problem asserts when it uses definitions, names and lets. A pair <<s, t>>: the
   problem asserts s, the proof assumes t. Definitions are global and bind nothing else: their free names
   keep their meaning wherever they are used, and a bound name hides a definition. *)
EXTENDS Sem, Subst
CONSTANTS Part, Parts
VARIABLE st
p == L("p") q == L("q") a == L("a") b == L("b") x == L("x") y == L("y") z == L("z")
P(t) == T("P", <<t>>) Q(s, t) == T("Q", <<s, t>>) f(t) == T("f", <<t>>)
U1(n) == <<<<n, "U">>>> B1(n) == <<<<n, "Bool">>>>
\* [name |-> [ps: parameters (all of sort U), body, so: sort]]
Defs == ("F" :> [ps |-> <<>>, body |-> P(a), so |-> "Bool"]) @@ ("G" :> [ps |-> <<"y">>, body |-> Q(y, a), so |-> "Bool"])
     @@ ("K" :> [ps |-> <<"x", "y">>, body |-> All(U1("z"), Or(<<Q(x, z), P(y)>>)), so |-> "Bool"])
     @@ ("A0" :> [ps |-> <<>>, body |-> b, so |-> "U"]) @@ ("E" :> [ps |-> <<"x">>, body |-> And(<<Q(x, a), P(b)>>), so |-> "Bool"])
     @@ ("vv" :> [ps |-> <<>>, body |-> P(b), so |-> "Bool"]) @@ ("W" :> [ps |-> <<"a">>, body |-> Q(a, b), so |-> "Bool"])
     @@ ("S" :> [ps |-> <<"x", "y">>, body |-> Q(y, x), so |-> "Bool"])
DSeq == <<"F", "G", "K", "A0", "E", "vv", "W", "S">>
DefT(n) == "(define-fun " \o n \o " (" \o Join([k \in 1..Len(Defs[n].ps) |-> "(" \o Defs[n].ps[k] \o " U)"], " ") \o ") " \o Defs[n].so \o " "
           \o (IF n = "E" THEN "(and (G x) vv)" ELSE Str(Defs[n].body)) \o ")"       \* E is defined by other definitions
\* (vv is defined before E)
DefText == Join([k \in 1..8 |-> DefT(<<"vv", "F", "G", "K", "A0", "E", "W", "S">>[k])], "")
G(t) == T("G", <<t>>) K(s, t) == T("K", <<s, t>>)
DApp(t) == t.o \in DOMAIN Defs
Glob == UNION {FV(Defs[n].body) \ ToSet(Defs[n].ps) : n \in DOMAIN Defs}
\* the meaning: expand every definition, renaming binders out of the way
RECURSIVE Exp(_, _)
Exp(t, bnd) ==
  LET m == Len(t.a)
      cl == {k \in 1..t.n : t.a[k].o \in Glob}
      fr(k) == "z" \o ToString(k + 3)
      ren == [w \in {t.a[k].o : k \in cl} |-> L(fr(CHOOSE k \in cl : t.a[k].o = w))]
      body == IF cl = {} THEN t.a[m] ELSE Sub(t.a[m], ren)
      nm(k) == IF k \in cl THEN fr(k) ELSE t.a[k].o
      b2 == bnd \cup {nm(k) : k \in 1..t.n}
  IN CASE t.o \in Binders -> [t EXCEPT !.a = [k \in 1..t.n |-> [t.a[k] EXCEPT !.o = nm(k)]] \o <<Exp(body, b2)>>]
       [] t.o = "let" -> [t EXCEPT !.a = [k \in 1..t.n |-> T(nm(k), <<Exp(t.a[k].a[1], bnd)>>)] \o <<Exp(body, b2)>>]
       [] t.o \in DOMAIN Defs /\ t.o \notin bnd ->
            Sub(Defs[t.o].body, [w \in ToSet(Defs[t.o].ps) |-> Exp(t.a[CHOOSE k \in 1..m : Defs[t.o].ps[k] = w], bnd)])
       [] OTHER -> [t EXCEPT !.a = [k \in 1..m |-> Exp(t.a[k], bnd)]]
\* substitution that lets names be captured
RECURSIVE SubRaw(_, _)
SubRaw(t, s) == LET m == Len(t.a) IN
  IF t.a = <<>> THEN (IF t.o \in DOMAIN s THEN s[t.o] ELSE t)
  ELSE IF t.o \in Binders THEN [t EXCEPT !.a[m] = SubRaw(t.a[m], [w \in (DOMAIN s) \ {t.a[k].o : k \in 1..t.n} |-> s[w]])]
  ELSE [t EXCEPT !.a = [k \in 1..m |-> SubRaw(t.a[k], s)]]
\* what a careless reader would make of it: no renaming, definitions hide bound names
RECURSIVE Naive(_)
Naive(t) ==
  LET m == Len(t.a) IN
  CASE t.o \in Binders -> [t EXCEPT !.a[m] = Naive(t.a[m])]
    [] t.o = "let" -> [t EXCEPT !.a = [k \in 1..t.n |-> T(t.a[k].o, <<Naive(t.a[k].a[1])>>)] \o <<Naive(t.a[m])>>]
    [] t.o \in DOMAIN Defs /\ Len(t.a) = Len(Defs[t.o].ps) -> SubRaw(Defs[t.o].body, [w \in ToSet(Defs[t.o].ps) |-> Naive(t.a[CHOOSE k \in 1..m : Defs[t.o].ps[k] = w])])
    [] OTHER -> [t EXCEPT !.a = [k \in 1..m |-> Naive(t.a[k])]]
RECURSIVE LetX(_)
LetX(t) == LET m == Len(t.a) IN
  CASE t.o \in Binders -> [t EXCEPT !.a[m] = LetX(t.a[m])]
    [] t.o = "let" -> Sub(LetX(t.a[m]), [w \in {t.a[k].o : k \in 1..t.n} |-> LetX(t.a[CHOOSE k \in 1..t.n : t.a[k].o = w].a[1])])
    [] OTHER -> [t EXCEPT !.a = [k \in 1..m |-> LetX(t.a[k])]]

S0 == {L("F"), Not(L("F")), G(a), G(b), G(f(b)), G(L("A0")), All(U1("x"), G(x)), All(U1("y"), G(y)), All(U1("a"), G(a)), All(U1("a"), L("F")), All(U1("x"), L("F")), Exi(U1("a"), And(<<L("F"), Not(P(a))>>)),
       K(a, b), K(b, b), All(U1("z"), K(z, z)), Exi(U1("z"), K(a, z)), All(U1("x"), K(x, f(x))), All(B1("vv"), L("vv")), Exi(B1("vv"), Not(L("vv"))), All(B1("vv"), Or(<<L("vv"), L("F")>>)), L("vv"),
       Let(<<<<"x", a>>>>, G(x)), Let(<<<<"x", L("A0")>>>>, And(<<P(x), L("vv")>>)), Let(<<<<"a", b>>>>, G(a)), Let(<<<<"a", b>>>>, P(a)), Let(<<<<"vv", p>>>>, L("vv")), Let(<<<<"vv", L("vv")>>>>, Not(L("vv"))), Let(<<<<"x", f(a)>>>>, All(U1("a"), Q(x, a))),
       Let(<<<<"x", a>>, <<"a", b>>>>, Q(a, b)), Let(<<<<"y", a>>>>, Let(<<<<"a", y>>>>, P(a))), T("E", <<a>>), T("E", <<L("A0")>>), All(U1("y"), T("E", <<y>>)), All(U1("b"), T("E", <<b>>)), All(U1("z"), Or(<<P(L("A0")), P(z)>>)),
       All(U1("b"), P(L("A0"))), All(U1("b"), Q(b, L("A0"))), T("W", <<b>>), T("W", <<a>>), All(U1("a"), T("W", <<a>>)), All(U1("b"), T("W", <<b>>)), Eq(L("A0"), a), And(<<L("F"), G(b), L("vv")>>), Or(<<L("F"), Not(L("F"))>>),
       T("S", <<a, b>>), T("S", <<b, a>>), All(U1("x"), T("S", <<x, a>>)), All(U1("y"), T("S", <<y, a>>)), All(<<<<"x", "U">>, <<"y", "U">>>>, T("S", <<y, x>>))}
RECURSIVE NoDup(_)
NoDup(t) == (t.o = "let" \/ t.o \in Binders => Cardinality({t.a[k].o : k \in 1..t.n}) = t.n) /\ \A k \in 1..Len(t.a) : NoDup(t.a[k])
Closed(t) == NoDup(t) /\ FV(t) \cap {"x", "y", "z", "z1", "z4", "z5"} = {}
Pool == [Bool |-> {TT, P(a), P(b)}, U |-> {a, b}]
Seq0 == SetToSeq(S0)
Init == st = <<"start">>
Cands(s) == {s, Exp(s, {}), Naive(s), LetX(s), Naive(LetX(s)), LetX(Naive(s))} \cup MutE(Naive(s), NoEnv, Pool) \cup {w \in {Naive(z2) : z2 \in S0} : SymsE(w, {}) \subseteq {"P", "Q", "a", "b"} /\ SymsE(s, {}) \cap {"f"} = {}}
Next == st[1] = "start" /\ \E m \in 1..Len(Seq0) : m % Parts = Part /\ \E t \in {w \in Cands(Seq0[m]) : Closed(w)} : st' = <<"pair", Seq0[m], t>>
Syms2 == {"P", "Q", "f", "a", "b", "p"}
\* some model tells them apart
Sep(s, t) == LET syms == (SymsE(s, {}) \cup SymsE(t, {})) IN
              ~(syms \subseteq Syms2) \/ \E M \in {1, 2} : \E I \in ModelsOf(syms, M, {"min"}) : Ev(s, I) # Ev(t, I)
B(w) == IF w THEN "1" ELSE "0"
HasD(t) == \E n \in DOMAIN Defs : HasOp(t, n)
Emit == IF st[1] = "start" THEN PrintT("CASE\tdecl\t" \o Decl \o DefText)
  ELSE LET s == st[2] t == st[3] es == Exp(s, {}) et == Exp(t, {})
           same == s = t
           ns == Naive(s) nt == Naive(t)
           \* nothing was captured, so every reading agrees
           easy == ns = es /\ nt = et
           lets == LetX(ns) = LetX(nt) /\ Alpha(LetX(ns), LetX(es)) /\ Alpha(LetX(nt), LetX(et)) /\ easy
           sep == Sep(es, et)
       IN /\ Assert(~(same \/ (easy /\ ns = nt) \/ lets) \/ ~sep, <<"equal readings separated", Str(s), Str(t)>>)
          /\ PrintT("CASE\tpair\t" \o Str(s) \o "\t" \o Str(t) \o "\t" \o B(same) \o B(easy /\ ns = nt) \o B(lets) \o B(sep) \o B(easy))
=============================================================================
