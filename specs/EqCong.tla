------------------------------- MODULE EqCong -------------------------------
(* C12: the theory of equality. Chains of equalities are built by a machine: each step extends the
   chain, flips or permutes its links; congruence instances cover every arity and orientation. *)
EXTENDS Sem
CONSTANTS MaxEdits, Part, Parts
VARIABLE st
p == L("p") q == L("q") r == L("r") s == L("s")
a == L("a") b == L("b") c == L("c") d == L("d") e == L("e")
f(t) == T("f", <<t>>) g(t, z) == T("g", <<t, z>>) P(t) == T("P", <<t>>) Q(t, z) == T("Q", <<t, z>>)

U1(es) == [m \in 1..Len(es) |-> <<es[m]>>]
NegC(es) == [m \in 1..Len(es) |-> Not(es[m])]
Flip(t) == Eq(t.a[2], t.a[1])
\* all orientations of a sequence of equalities
RECURSIVE Orient(_)
Orient(es) == IF es = <<>> THEN {<<>>} ELSE {<<h1>> \o z : h1 \in {es[1], Flip(es[1])}, z \in Orient(Tail(es))}
RECURSIVE Perms(_)
Perms(es) == IF es = <<>> THEN {<<>>} ELSE UNION {{<<es[m]>> \o z : z \in Perms(RemoveNth(es, m))} : m \in 1..Len(es)}
St(rule, prem, cl) == [r |-> rule, prem |-> prem, cl |-> cl, args |-> <<>>]

Refl == {St("eq_reflexive", <<>>, <<Eq(t, t)>>) : t \in {a, p, f(a), And(<<p, q>>)}} \cup {St("refl", <<>>, <<Eq(t, t)>>) : t \in {a, p, f(a)}}
        \cup {St("refl", <<>>, <<Eq(All(<<<<"x", "U">>>>, P(L("x"))), All(<<<<"y", "U">>>>, P(L("y"))))>>)}
Pr == {<<a, b>>, <<f(a), b>>, <<p, q>>, <<a, a>>, <<p, Not(p)>>, <<P(a), Eq(a, b)>>}
Sym == {St("symm", <<<<Eq(z[1], z[2])>>>>, <<Eq(z[2], z[1])>>) : z \in Pr} \cup {St("not_symm", <<<<Not(Eq(z[1], z[2]))>>>>, <<Not(Eq(z[2], z[1]))>>) : z \in Pr}
       \cup {St("eq_symmetric", <<>>, <<Eq(Eq(z[1], z[2]), Eq(z[2], z[1]))>>) : z \in Pr}
Paths == {<<a, b>>, <<a, b, c>>, <<a, f(b), c, d>>, <<p, q, r>>, <<a, b, a, c>>, <<p, Not(q), TT>>}
Path5 == <<a, b, c, d, e>>
Links(w) == [m \in 1..(Len(w) - 1) |-> Eq(w[m], w[m + 1])]
Trans == UNION {LET es == Links(w) o == UNION {Perms(z) : z \in Orient(es)} IN
      {St("trans", U1(z), <<Eq(w[1], w[Len(w)])>>) : z \in o} \cup
      {St("eq_transitive", <<>>, NegC(z) \o <<Eq(w[1], w[Len(w)])>>) : z \in {y \in o : Len(w) >= 3}} : w \in Paths}
   \cup {St("trans", U1(z), <<Eq(a, e)>>) : z \in Orient(Links(Path5))} \cup {St("eq_transitive", <<>>, NegC(z) \o <<Eq(a, e)>>) : z \in Perms(Links(Path5))}

\* congruence: application of a symbol to argument lists us, vs; only differing arguments need a premise
Apps == {<<"f", <<a>>, <<b>>>>, <<"f", <<f(a)>>, <<b>>>>, <<"g", <<a, b>>, <<c, d>>>>, <<"g", <<a, b>>, <<a, d>>>>, <<"g", <<a, b>>, <<c, b>>>>, <<"g", <<a, a>>, <<b, b>>>>, <<"g", <<a, b>>, <<b, a>>>>,
         <<"P", <<a>>, <<b>>>>, <<"Q", <<a, b>>, <<c, d>>>>, <<"Q", <<a, b>>, <<a, c>>>>, <<"not", <<p>>, <<q>>>>, <<"and", <<p, q>>, <<r, s>>>>, <<"or", <<p, q, r>>, <<p, s, r>>>>,
         <<"=>", <<p, q>>, <<r, q>>>>, <<"xor", <<p, q>>, <<q, p>>>>, <<"=", <<a, b>>, <<c, d>>>>, <<"=", <<p, q>>, <<p, r>>>>, <<"ite", <<p, a, b>>, <<q, a, c>>>>, <<"ite", <<p, q, r>>, <<p, s, r>>>>,
         <<"distinct", <<a, b>>, <<c, b>>>>, <<"h", <<p>>, <<q>>>>, <<"H", <<p, q>>, <<r, s>>>>}
Diff(w) == SelectSeq([m \in 1..Len(w[2]) |-> Eq(w[2][m], w[3][m])], LAMBDA z : z.a[1] # z.a[2])
AllEq(w) == [m \in 1..Len(w[2]) |-> Eq(w[2][m], w[3][m])]
Cong == UNION {UNION {{St(rl, U1(z), <<Eq(T(w[1], w[2]), T(w[1], w[3]))>>) : rl \in IF w[1] \in DOMAIN FSig THEN {"cong", "ho_cong"} ELSE {"cong"}} : z \in Orient(Diff(w)) \cup Orient(AllEq(w))} : w \in Apps}
  \cup {St("cong", U1(z), <<Eq(Eq(a, b), Eq(d, c))>>) : z \in {<<Eq(a, c), Eq(b, d)>>, <<Eq(c, a), Eq(b, d)>>}}
  \cup {St("cong", <<<<Eq(a, c)>>>>, <<Eq(Eq(b, a), Eq(b, c))>>), St("cong", <<<<Eq(a, c)>>>>, <<Eq(Eq(a, b), Eq(b, c))>>)}
  \cup {St("ho_cong", <<<<Eq(L("f"), L("f2"))>>>>, <<Eq(f(a), T("f2", <<a>>))>>),
        St("ho_cong", <<<<Eq(L("f"), L("f2"))>>, <<Eq(a, b)>>>>, <<Eq(f(a), T("f2", <<b>>))>>),
        St("ho_cong", <<<<Eq(L("f2"), L("f"))>>, <<Eq(b, a)>>>>, <<Eq(f(a), T("f2", <<b>>))>>)}
EqC == UNION {{St("eq_congruent", <<>>, NegC(z) \o <<Eq(T(w[1], w[2]), T(w[1], w[3]))>>) : z \in Orient(AllEq(w))} : w \in {w2 \in Apps : w2[1] # "not"}}
   \cup UNION {UNION {{St("eq_congruent_pred", <<>>, NegC(z) \o <<Not(T(w[1], w[2])), T(w[1], w[3])>>), St("eq_congruent_pred", <<>>, NegC(z) \o <<T(w[1], w[2]), Not(T(w[1], w[3]))>>)}
       : z \in Orient(AllEq(w))} : w \in {w2 \in Apps : w2[1] \in {"P", "Q", "and", "or", "=>", "="}}}
Seeds == Refl \cup Sym \cup Trans \cup Cong \cup EqC
Pool == [Bool |-> {p, q, r}, U |-> {a, b, c, f(a)}]
RefutedC(prem, cl) ==
  LET syms == SymsC(cl) \cup UNION {SymsC(prem[k]) : k \in 1..Len(prem)}
      hasU == \E k \in syms : (k \in DOMAIN Sig /\ Sig[k] = "U") \/ k \in DOMAIN FSig
      hasQ == \E k \in 1..Len(cl) : HasOp(cl[k], "forall")
  IN Refuted(prem, cl, IF ~hasU THEN {1} ELSE IF syms \cap {"Q", "g", "H"} # {} \/ hasQ \/ Cardinality(syms) >= 5 THEN {2} ELSE {2, 3})
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- Decl
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* every small attempt: up to two equalities, then any equality between constants or applications
Cs == {a, b, c, d}
Eqs == {Eq(z1, z2) : z1 \in Cs, z2 \in Cs}
Prems2 == {<<>>} \cup {<<z>> : z \in Eqs} \cup {<<z1, z2>> : z1 \in Eqs, z2 \in Eqs}
AppT == {f(a), f(b), f(c), g(a, b), g(b, a), g(a, c), g(c, b), g(b, b), g(c, d)}
Concl == {Eq(z1, z2) : z1 \in {a, b, c}, z2 \in {a, b, c, d}} \cup {Eq(z1, z2) : z1 \in AppT, z2 \in AppT}
\* equality up to congruence on these terms: the partition the premises force on the constants
RECURSIVE Close(_)
Close(Rel) == LET NN == Rel \cup {<<z[2], z[1]>> : z \in Rel} \cup {<<z[1][1], z[2][2]>> : z \in {y \in Rel \X Rel : y[1][2] = y[2][1]}} IN IF NN = Rel THEN Rel ELSE Close(NN)
Forced(es) == Close({<<z, z>> : z \in Cs} \cup {<<es[m].a[1], es[m].a[2]>> : m \in 1..Len(es)})
Follows(Rel, t, z) == \/ <<t, z>> \in Rel
                      \/ t = z
                      \/ t.o = z.o /\ t.a # <<>> /\ \A m \in 1..Len(t.a) : <<t.a[m], z.a[m]>> \in Rel
PremSeq == SetToSeq(Prems2)
XInit == st = 0
XNext == st < Len(PremSeq) /\ st' = st + 1
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE st % Parts # Part \/
  LET es == PremSeq[st] Rel == Forced(es) IN
  \A z \in Concl : IF Follows(Rel, z.a[1], z.a[2]) THEN TRUE ELSE
      /\ PrintT("CASE\tbad\texhaustive\t" \o Cls(U1(es)) \o "\t" \o Cl(<<z>>) \o "\t\t0")
      /\ (es = <<>> \/ PrintT("CASE\tbad\texhaustive\t\t" \o Cl(NegC(es) \o <<z>>) \o "\t\t0"))
=============================================================================
