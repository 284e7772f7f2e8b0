------------------------------- MODULE Quant -------------------------------
(* C16: quantifier rules, with bound names that collide with constants and with each other. *)
EXTENDS Sem, Subst
CONSTANTS MaxEdits, Part, Parts
VARIABLE st
p == L("p") q == L("q") a == L("a") b == L("b") x == L("x") y == L("y") z == L("z")
f(t) == T("f", <<t>>) P(t) == T("P", <<t>>) Q(t, u) == T("Q", <<t, u>>)
St(rule, cl, as) == [r |-> rule, prem |-> <<>>, cl |-> cl, args |-> as]
U(n) == <<n, "U">>   B(n) == <<n, "Bool">>

\* forall_inst: bodies over x, y; substituted terms use constants that some bodies bind
Bodies1 == {P(x), P(f(x)), Q(x, a), Exi(<<U("y")>>, Q(x, y)), Exi(<<U("a")>>, Q(x, a)), All(<<U("x")>>, P(x)), And(<<P(x), All(<<U("x")>>, Q(x, x))>>),
            Exi(<<U("a"), U("b")>>, Or(<<Q(x, a), Q(b, x)>>)), Or(<<P(a), Exi(<<U("a")>>, Q(a, x))>>), Eq(x, a), Exi(<<U("y")>>, Exi(<<U("a")>>, And(<<Q(y, a), P(x)>>)))}
Vals == {a, b, f(a), f(f(b))}
Inst1 == {St("forall_inst", <<Or(<<Not(All(<<U("x")>>, t)), Sub(t, [x |-> v])>>)>>, <<v>>) : t \in Bodies1, v \in Vals}
Bodies2 == {Q(x, y), Or(<<P(x), P(y)>>), Exi(<<U("a")>>, And(<<Q(x, a), Q(a, y)>>)), Eq(f(x), y)}
Inst2 == {St("forall_inst", <<Or(<<Not(All(<<U("x"), U("y")>>, t)), Sub(t, [x |-> v, y |-> w])>>)>>, <<v, w>>) : t \in Bodies2, v \in {a, b, f(a)}, w \in {a, b}}
         \cup {St("forall_inst", <<Or(<<Not(All(<<B("x"), U("y")>>, Or(<<x, P(y)>>))), Or(<<v, P(w)>>)>>)>>, <<v, w>>) : v \in {p, Not(q), P(a)}, w \in {a, b}}

QSeqs == {<<U("x")>>, <<U("y")>>, <<U("x"), U("y")>>, <<U("a")>>, <<U("y"), U("x")>>}
DedupS(s) == FoldSeq(LAMBDA e, acc : IF e \in {acc[k] : k \in 1..Len(acc)} THEN acc ELSE Append(acc, e), <<>>, s)
JB == {Q(x, y), P(x), Or(<<P(a), Q(x, x)>>)}
Jn == {St("qnt_join", <<Eq(Bnd(o, s1, Bnd(o, s2, t)), Bnd(o, DedupS(s1 \o s2), t))>>, <<>>) : o \in {"forall", "exists"}, s1 \in QSeqs, s2 \in QSeqs,
       t \in JB}
RmS == {<<U("x"), U("y"), U("z")>>, <<U("y"), U("x")>>, <<U("a"), U("x")>>, <<U("y")>>, <<U("x")>>, <<B("p"), U("x")>>}
RmT == {P(x), Q(x, a), And(<<P(x), P(y)>>), Exi(<<U("y")>>, Q(x, y)), p}
MkQ(o, s, t) == IF s = <<>> THEN t ELSE Bnd(o, s, t)
Rm == {St("qnt_rm_unused", <<Eq(Bnd(o, s, t), MkQ(o, SelectSeq(s, LAMBDA e : e[1] \in FV(t)), t))>>, <<>>) : o \in {"forall", "exists"}, s \in RmS, t \in RmT}

\* miniscoping
Ph == <<P(x), Q(x, a), P(y), Q(x, y), p, Exi(<<U("y")>>, Q(x, y)), P(a)>>
Pairs == {<<Ph[k], Ph[m]>> : k \in 1..Len(Ph), m \in 1..Len(Ph)}
MDist == {St("miniscope_distribute", <<Eq(Bnd(o[1], s, T(o[2], w)), T(o[2], [k \in 1..Len(w) |-> Bnd(o[1], s, w[k])]))>>, <<>>)
          : o \in {<<"forall", "and">>, <<"exists", "or">>}, s \in {<<U("x"), U("y")>>, <<U("x")>>, <<U("a")>>, <<U("a"), U("x")>>}, w \in {w2 \in Pairs \cup {<<P(x), p, Q(x, a)>>} : w2[1] # w2[2]}}
SplitOk(s, w) == \A k \in 1..Len(s) : Cardinality({m \in 1..Len(w) : s[k][1] \in FV(w[m])}) <= 1
MSplit == {St("miniscope_split", <<Eq(Bnd(o[1], s, T(o[2], w)), T(o[2], [k \in 1..Len(w) |-> MkQ(o[1], SelectSeq(s, LAMBDA e : e[1] \in FV(w[k])), w[k])]))>>, <<>>)
          : o \in {<<"forall", "or">>, <<"exists", "and">>}, s \in {<<U("x"), U("y")>>, <<U("x")>>, <<U("y")>>, <<U("a")>>, <<U("a"), U("y")>>},
            w \in Pairs \cup {<<P(x), p, P(y)>>, <<Q(x, y), p, P(a)>>}}
MSplitG == {ms \in MSplit : LET l == ms.cl[1].a[1] IN SplitOk([k \in 1..l.n |-> <<l.a[k].o>>], l.a[Len(l.a)].a)}
MIte == {St("miniscope_ite", <<Eq(All(sc[1], Ite(sc[2], t, u)), Ite(sc[2], All(sc[1], t), All(sc[1], u)))>>, <<>>) : sc \in {z2 \in {<<U("x")>>, <<U("x"), U("y")>>, <<U("x"), U("z")>>, <<U("a"), U("x")>>} \X {p, P(a), Exi(<<U("x")>>, P(x))} : \A k \in 1..Len(z2[1]) : z2[1][k][1] \notin FV(z2[2])},
          t \in {P(x), Q(x, y), q, Q(a, x)}, u \in {Q(x, x), P(y)}}

\* qnt_cnf: the clauses of the conjunctive normal form of the body, inner universals pulled out
RECURSIVE Nnf(_, _)
Nnf(t, pol) ==
  CASE t.o = "not" -> Nnf(t.a[1], ~pol)
    [] t.o \in {"and", "or"} -> T(IF pol THEN t.o ELSE IF t.o = "and" THEN "or" ELSE "and", [k \in 1..Len(t.a) |-> Nnf(t.a[k], pol)])
    [] t.o = "=>" -> T(IF pol THEN "or" ELSE "and", <<Nnf(t.a[1], ~pol), Nnf(t.a[2], pol)>>)
    [] t.o = "ite" -> IF pol THEN And(<<Or(<<Nnf(t.a[1], FALSE), Nnf(t.a[2], TRUE)>>), Or(<<Nnf(t.a[1], TRUE), Nnf(t.a[3], TRUE)>>)>>)
                      ELSE Or(<<And(<<Nnf(t.a[1], TRUE), Nnf(t.a[2], FALSE)>>), And(<<Nnf(t.a[1], FALSE), Nnf(t.a[3], FALSE)>>)>>)
    [] t.o = "=" /\ SortE(t.a[1], [x |-> "U", y |-> "U", z |-> "U"]) = "Bool" ->
         IF pol THEN And(<<Or(<<Nnf(t.a[1], FALSE), Nnf(t.a[2], TRUE)>>), Or(<<Nnf(t.a[2], FALSE), Nnf(t.a[1], TRUE)>>)>>)
         ELSE Or(<<And(<<Nnf(t.a[1], TRUE), Nnf(t.a[2], FALSE)>>), And(<<Nnf(t.a[2], TRUE), Nnf(t.a[1], FALSE)>>)>>)
    [] t.o \in {"forall", "exists"} -> [t EXCEPT !.o = IF pol THEN t.o ELSE IF t.o = "forall" THEN "exists" ELSE "forall", !.a[t.n + 1] = Nnf(t.a[t.n + 1], pol)]
    [] OTHER -> IF pol THEN t ELSE Not(t)
RECURSIVE Prx(_)
Prx(t) == IF t.o \in {"and", "or"} THEN [t EXCEPT !.a = [k \in 1..Len(t.a) |-> Prx(t.a[k])]] ELSE IF t.o = "forall" THEN Prx(t.a[t.n + 1]) ELSE t
RECURSIVE PrB(_)
PrB(t) == IF t.o \in {"and", "or"} THEN FlattenSeq([k \in 1..Len(t.a) |-> PrB(t.a[k])])
          ELSE IF t.o = "forall" THEN [k \in 1..t.n |-> <<t.a[k].o, t.a[k].a[1].o>>] \o PrB(t.a[t.n + 1]) ELSE <<>>
RECURSIVE Prod(_)
Prod(fs) == IF Len(fs) = 1 THEN fs[1] ELSE LET tl == Prod(Tail(fs)) IN FlattenSeq([k \in 1..Len(fs[1]) |-> [m \in 1..Len(tl) |-> fs[1][k] \o tl[m]]])
RECURSIVE CnfE(_)
CnfE(t) == IF t.o = "and" THEN FlattenSeq([k \in 1..Len(t.a) |-> CnfE(t.a[k])]) ELSE IF t.o = "or" THEN Prod([k \in 1..Len(t.a) |-> CnfE(t.a[k])]) ELSE <<<<t>>>>
CB == {And(<<P(x), Q(x, a)>>), Or(<<And(<<P(x), p>>), q>>), Imp(P(x), And(<<p, Q(x, x)>>)), Ite(P(x), p, Q(x, a)), Eq(P(x), Q(x, a)), Not(Or(<<P(x), Not(Q(x, x))>>)),
       Or(<<P(x), All(<<U("y")>>, Q(x, y))>>), And(<<P(x), All(<<U("y")>>, Or(<<Q(x, y), P(y)>>))>>), Not(Exi(<<U("y")>>, And(<<P(x), Q(x, y)>>))), Or(<<P(x), Exi(<<U("y")>>, Q(x, y))>>),
       Not(Eq(P(x), p)), Or(<<And(<<P(x), p>>), And(<<q, Q(x, a)>>)>>), Not(Ite(p, P(x), q)), Or(<<All(<<U("y")>>, P(y)), All(<<U("z")>>, Q(z, x))>>), Or(<<P(x), All(<<U("x")>>, Q(x, x))>>)}
Cnf == UNION {LET nf == Nnf(t, TRUE) cs == CnfE(Prx(nf)) bs == DedupS(<<U("x")>> \o PrB(nf))
              IN UNION {LET c1 == IF Len(cs[k]) = 1 THEN cs[k][1] ELSE Or(cs[k])
                            s == SelectSeq(bs, LAMBDA e : e[1] \in FV(c1))
                        IN {St("qnt_cnf", <<Or(<<Not(All(<<U("x")>>, t)), All(w, c1)>>)>>, <<>>) : w \in {bs} \cup (IF s = <<>> THEN {} ELSE {s})} : k \in 1..Len(cs)} : t \in CB}
Seeds == {sd \in Inst1 \cup Inst2 \cup Jn \cup Rm \cup MDist \cup MSplitG \cup MIte \cup Cnf : ClosedC(<<>>, sd.cl)}
Pool == [Bool |-> {p}, U |-> {a, b}]
RefutedC(prem, cl) ==
  LET syms == SymsC(cl) IN Refuted(prem, cl, IF "Q" \in syms \/ Cardinality(syms) >= 4 THEN {2} ELSE {2, 3})
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- Decl
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* qnt_cnf and the others on every small body where bound names meet constants: exhaustive pairs
Small == {P(x), P(a), Q(x, a), Q(a, x), Q(a, y), P(y), p}
QS == {s \in {<<>>, <<U("x")>>, <<U("a")>>, <<U("y")>>, <<U("x"), U("y")>>, <<U("x"), U("a")>>, <<U("a"), U("y")>>} : TRUE}
G1 == Small \cup {MkQ(o, s, t) : o \in {"forall", "exists"}, s \in QS, t \in Small}
Lhs == {MkQ(o, s, T(o2, <<t, u>>)) : o \in {"forall", "exists"}, s \in QS \ {<<>>}, o2 \in {"and", "or"}, t \in Small, u \in G1}
Rhs(l) == LET k == l.n bd == l.a[k + 1] t == bd.a[1] u == bd.a[2]
              strip == IF u.o \in {"forall", "exists"} THEN u.a[u.n + 1] ELSE u
              cl2 == {bd, T(bd.o, <<t, strip>>), T(bd.o, <<strip, t>>), t, strip, u}
          IN {MkQ(l.o, s, c2) : s \in QS, c2 \in cl2} \cup {T(bd.o, <<MkQ(l.o, s, t), MkQ(l.o, s2, u)>>) : s \in QS, s2 \in QS}
LSeq == SetToSeq({l \in Lhs : l.o \in {"forall", "exists"} /\ SymsE(l, {}) \cap XVars = {}})
XInit == st = 0
XNext == st < Len(LSeq) /\ st' = st + 1
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE st % Parts # Part \/
  \A w \in Rhs(LSeq[st]) : \A c1 \in {Eq(LSeq[st], w), Or(<<Not(LSeq[st]), w>>)} :
     IF w # LSeq[st] /\ ClosedC(<<>>, <<c1>>) /\ Refuted(<<>>, <<c1>>, {2})
     THEN PrintT("CASE\tbad\texhaustive\t\t" \o Cl(<<c1>>) \o "\t" \o (IF LSeq[st].n = 1 THEN "b" ELSE "a b") \o "\t0") ELSE TRUE
=============================================================================
