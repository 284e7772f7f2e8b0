------------------------------ MODULE Simplify ------------------------------
(* C11: the simplification rules as rewrite systems. Each rule's documented rewrites are applied at
   the top of the left side, first one that matches first, any number of times; every equation
   between the start of such a run and one of its later terms (in either orientation) is a
   documented instance. Equations whose sides differ in some model must be rejected. *)
EXTENDS Sem
CONSTANTS MaxEdits, Part, Parts, Big
VARIABLE st

p == L("p") q == L("q") r == L("r") s == L("s")
a == L("a") b == L("b") c == L("c") x == L("x") y == L("y")
f(t) == T("f", <<t>>)
P(t) == T("P", <<t>>)

No == <<>>
RwIte(t) ==
  IF t.o # "ite" THEN No ELSE
  LET u == t.a[1] v == t.a[2] w == t.a[3] IN
  CASE u = TT -> <<v>>
    [] u = FF -> <<w>>
    [] v = w -> <<v>>
    [] v = TT /\ w = FF -> <<u>>
    [] v = FF /\ w = TT -> <<Not(u)>>
    [] u.o = "not" -> <<Ite(u.a[1], w, v)>>
    [] v.o = "ite" /\ v.a[1] = u -> <<Ite(u, v.a[2], w)>>
    [] w.o = "ite" /\ w.a[1] = u -> <<Ite(u, v, w.a[3])>>
    [] v = TT -> <<Or(<<u, w>>)>>
    [] w = FF -> <<And(<<u, v>>)>>
    [] v = FF -> <<And(<<Not(u), w>>)>>
    [] w = TT -> <<Or(<<Not(u), v>>)>>
    [] OTHER -> No
RwNot(t) ==
  IF t.o # "not" THEN No ELSE
  CASE t.a[1].o = "not" -> <<t.a[1].a[1]>>
    [] t.a[1] = FF -> <<TT>>
    [] t.a[1] = TT -> <<FF>>
    [] OTHER -> No
RwImp(t) ==
  IF t.o # "=>" \/ Len(t.a) # 2 THEN No ELSE
  LET u == t.a[1] v == t.a[2] IN
  CASE u.o = "not" /\ v.o = "not" -> <<Imp(v.a[1], u.a[1])>>
    [] u = FF -> <<TT>>
    [] v = TT -> <<TT>>
    [] u = TT -> <<v>>
    [] v = FF -> <<Not(u)>>
    [] u = v -> <<TT>>
    [] u = Not(v) \/ v = Not(u) -> <<v>>
    [] u.o = "=>" /\ u.a[2] = v -> <<Or(<<u.a[1], v>>)>>
    [] OTHER -> No
RwEquiv(t) ==
  IF t.o # "=" THEN No ELSE
  LET u == t.a[1] v == t.a[2] IN
  CASE u.o = "not" /\ v.o = "not" -> <<Eq(u.a[1], v.a[1])>>
    [] u = v -> <<TT>>
    [] v = Not(u) \/ u = Not(v) -> <<FF>>
    [] u = TT -> <<v>>
    [] v = TT -> <<u>>
    [] u = FF -> <<Not(v)>>
    [] v = FF -> <<Not(u)>>
    [] OTHER -> No
RwBool(t) ==
  CASE t.o = "not" /\ t.a[1].o = "=>" -> <<And(<<t.a[1].a[1], Not(t.a[1].a[2])>>)>>
    [] t.o = "not" /\ t.a[1].o = "or" /\ Len(t.a[1].a) = 2 -> <<And(<<Not(t.a[1].a[1]), Not(t.a[1].a[2])>>)>>
    [] t.o = "not" /\ t.a[1].o = "and" /\ Len(t.a[1].a) = 2 -> <<Or(<<Not(t.a[1].a[1]), Not(t.a[1].a[2])>>)>>
    [] t.o = "=>" /\ t.a[2].o = "=>" -> <<Imp(And(<<t.a[1], t.a[2].a[1]>>), t.a[2].a[2])>>
    [] t.o = "=>" /\ t.a[1].o = "=>" /\ t.a[1].a[2] = t.a[2] -> <<Or(<<t.a[1].a[1], t.a[2]>>)>>
    [] t.o = "and" /\ Len(t.a) = 2 /\ t.a[2].o = "=>" /\ t.a[2].a[1] = t.a[1] -> <<And(<<t.a[1], t.a[2].a[2]>>)>>
    [] t.o = "and" /\ Len(t.a) = 2 /\ t.a[1].o = "=>" /\ t.a[1].a[1] = t.a[2] -> <<And(<<t.a[2], t.a[1].a[2]>>)>>
    [] OTHER -> No
RwEq(t) == IF t.o = "=" /\ t.a[1] = t.a[2] THEN <<TT>> ELSE No
Rw(rule, t) == CASE rule = "ite_simplify" -> RwIte(t) [] rule = "not_simplify" -> RwNot(t) [] rule = "implies_simplify" -> RwImp(t)
                 [] rule = "equiv_simplify" -> RwEquiv(t) [] rule = "bool_simplify" -> RwBool(t) [] rule = "eq_simplify" -> RwEq(t)
RECURSIVE Reach(_, _, _)
Reach(rule, t, n) == LET z == Rw(rule, t) IN IF z = No \/ n = 0 THEN <<>> ELSE <<z[1]>> \o Reach(rule, z[1], n - 1)

\* left sides
At2 == {TT, FF, p, q, Not(p), Not(q)}
Fm == At2 \cup {Not(Not(p)), Imp(p, q), Imp(q, p), And(<<p, q>>), Or(<<p, q>>), Eq(p, q)}
IteL == {Ite(z1, z2, z3) : z1 \in {TT, FF, p, Not(p), Not(Not(q))}, z2 \in {TT, FF, p, q, Not(p), Ite(p, q, r)}, z3 \in {TT, FF, p, r, Not(p), Ite(p, r, q), Ite(Not(p), q, r)}}
        \cup {Ite(z1, z2, z3) : z1 \in {TT, FF, p, Not(p)}, z2 \in {a, b, Ite(p, a, b), Ite(q, a, b)}, z3 \in {a, b, Ite(p, c, b), Ite(Not(p), b, c)}}
NotL == {Not(z) : z \in Fm} \cup {Not(Not(Not(p))), Not(Not(Not(Not(p)))), Not(Not(TT))}
ImpL == {Imp(z1, z2) : z1 \in Fm, z2 \in Fm}
EquivL == {Eq(z1, z2) : z1 \in Fm, z2 \in Fm}
BoolL == {Not(Imp(z1, z2)) : z1 \in At2, z2 \in At2} \cup {Not(And(<<z1, z2>>)) : z1 \in At2, z2 \in At2} \cup {Not(Or(<<z1, z2>>)) : z1 \in At2, z2 \in At2}
         \cup {Imp(z1, Imp(z2, z3)) : z1 \in {p, q, Not(p)}, z2 \in {p, q}, z3 \in {q, r}} \cup {Imp(Imp(z1, z2), z2) : z1 \in At2, z2 \in At2}
         \cup {And(<<z1, Imp(z1, z2)>>) : z1 \in At2, z2 \in At2} \cup {And(<<Imp(z1, z2), z1>>) : z1 \in At2, z2 \in At2}
EqL == {Eq(a, a), Eq(f(a), f(a)), Eq(p, p), Eq(a, b), Eq(f(a), f(b))}
Lefts == [ite_simplify |-> IteL, not_simplify |-> NotL, implies_simplify |-> ImpL, equiv_simplify |-> EquivL, bool_simplify |-> BoolL, eq_simplify |-> EqL]
E1(rule, u, v) == [r |-> rule, prem |-> <<>>, cl |-> <<Eq(u, v)>>, args |-> <<>>]
RwSeeds == UNION {UNION {LET z == Reach(rule, t, 8) IN
    {E1(rule, t, z[k]) : k \in 1..Len(z)} \cup {E1(rule, z[k], t) : k \in 1..Len(z)} : t \in Lefts[rule]} : rule \in DOMAIN Lefts}

\* and/or
Filter(z, u) == SelectSeq(z, LAMBDA w : w # u)
RECURSIVE Dedup(_)
Dedup(z) == IF z = <<>> THEN <<>> ELSE LET h1 == SubSeq(z, 1, Len(z) - 1) l == z[Len(z)] IN
            IF \E k \in 1..Len(h1) : h1[k] = l THEN Dedup(h1) ELSE Append(Dedup(h1), l)
RECURSIVE Pol(_)
Pol(t) == IF t.o = "not" THEN LET z == Pol(t.a[1]) IN <<~z[1], z[2]>> ELSE <<TRUE, t>>
Clash(z, short) == \E k \in 1..Len(z) : z[k] = short \/ \E l \in 1..Len(z) : Pol(z[k]) = <<~Pol(z[l])[1], Pol(z[l])[2]>>
Wrap(op, z) == IF Len(z) >= 2 THEN {T(op, z)} ELSE IF Len(z) = 1 THEN {T(op, z)} \cup (IF z[1].o = op THEN {} ELSE {z[1]}) ELSE {}
AoLits == {TT, FF, p, q, Not(p), Not(Not(p))}
AoLists == {<<z1>> : z1 \in AoLits} \cup {<<z1, z2>> : z1 \in AoLits, z2 \in AoLits} \cup {<<z1, z2, z3>> : z1 \in AoLits, z2 \in AoLits, z3 \in AoLits}
           \cup {<<p, q, r, p, TT>>, <<p, FF, q, r, FF>>, <<q, Not(Not(Not(p))), r, p>>, <<Or(<<p, q>>), p>>, <<And(<<p, q>>), r>>, <<Or(<<p, q>>), And(<<p, q>>), Or(<<p, q>>)>>}
AoSeeds(op, rule, skip, short) == UNION {
    LET s1 == Filter(z, skip) s2 == Dedup(s1)
        fin == IF Clash(s2, short) THEN {short} ELSE IF s2 = <<>> THEN {skip} ELSE Wrap(op, s2)
    IN {E1(rule, T(op, z), w) : w \in Wrap(op, s1) \cup (IF Clash(s1, short) THEN {} ELSE Wrap(op, s2)) \cup fin} : z \in AoLists}
  \cup {E1(rule, T(op, <<T(op, <<p, q>>)>>), T(op, <<p, q>>)), E1(rule, T(op, <<T(op, <<p, p, q>>)>>), T(op, <<p, q>>))}

\* ac_simp and aci_simp on and/or
RECURSIVE Ac(_)
Ac(t) == IF t.o \in {"and", "or"}
         THEN LET parts == [k \in 1..Len(t.a) |-> LET z == Ac(t.a[k]) IN IF z.o = t.o THEN z.a ELSE <<z>>]
                  z == Dedup(FlattenSeq(parts))
              IN IF Len(z) = 1 THEN z[1] ELSE T(t.o, z)
         ELSE IF t.o \in Binders THEN [t EXCEPT !.a[Len(t.a)] = Ac(t.a[Len(t.a)])]
         ELSE [t EXCEPT !.a = [k \in 1..Len(t.a) |-> Ac(t.a[k])]]
XU == <<<<"x", "U">>>>
AcTerms == LET op(o) == {T(o, <<T(o, <<z1, z2>>), z3>>) : z1 \in {p, q}, z2 \in {q, Not(p)}, z3 \in {p, r, T(o, <<r, p>>)}} IN
  op("and") \cup op("or") \cup
  {And(<<p, Or(<<q, Or(<<r, q>>)>>)>>), Or(<<And(<<p, And(<<q, p>>)>>), r>>), Not(And(<<p, And(<<q, r>>)>>)), And(<<p, p>>), Or(<<Or(<<p, p>>), p>>),
   Imp(And(<<p, And(<<q, p>>)>>), Or(<<q, Or(<<r>>)>>)), Ite(And(<<p, And(<<q, r>>)>>), q, r), P(Ite(Or(<<p, Or(<<q, p>>)>>), a, b)),
   All(XU, And(<<P(x), And(<<P(x), p>>)>>)), Exi(XU, Or(<<P(x), Or(<<p, q>>)>>)), And(<<Or(<<p, p>>), And(<<p, q>>)>>), Eq(p, q),
   And(<<Or(<<p, Or(<<p, p>>)>>), p>>), Xor(Or(<<p, Or(<<q, r>>)>>), Or(<<p, Or(<<q, r>>)>>))}
AcSeeds == {E1("ac_simp", t, Ac(t)) : t \in AcTerms}
RECURSIVE Aci(_, _)
Aci(t, o) == IF t.o # o THEN <<t>> ELSE FlattenSeq([k \in 1..Len(t.a) |-> Aci(t.a[k], o)])
AciTerms == {t \in AcTerms : t.o \in {"and", "or"}} \cup
  {And(<<p, TT, q>>), And(<<TT, And(<<p, TT>>), q>>), Or(<<p, FF>>), Or(<<Or(<<FF, q>>), p, q>>), Or(<<p, TT>>), And(<<p, FF, q>>), And(<<p, Or(<<q, r>>), And(<<r, p>>)>>)}
AciNorm(t) == Dedup(Filter(Aci(t, t.o), IF t.o = "and" THEN TT ELSE FF))
One(op, z) == IF Len(z) = 1 THEN z[1] ELSE T(op, z)
AciSeeds == UNION {LET z == AciNorm(t) IN IF z = <<>> THEN {} ELSE
    {E1("aci_simp", t, One(t.o, z)), E1("aci_simp", One(t.o, z), t), E1("aci_simp", t, t), E1("aci_simp", t, One(t.o, Reverse(z)))} : t \in AciTerms}
QS == UNION {{E1("qnt_simplify", T1, z) : T1 \in {All(bs, z), Exi(bs, z)}} : bs \in {XU, <<<<"x", "U">>, <<"y", "Bool">>>>}, z \in {TT, FF}}

Seeds == RwSeeds \cup AoSeeds("and", "and_simplify", TT, FF) \cup AoSeeds("or", "or_simplify", FF, TT) \cup AcSeeds \cup AciSeeds \cup QS
Pool == [Bool |-> {p, q, TT} \cup (IF Big THEN {r, FF} ELSE {}), U |-> {a, b}]
RefutedC(prem, cl) ==
  LET syms == SymsC(cl)
      pure == \A k \in syms : k \in DOMAIN Sig /\ Sig[k] = "Bool"
      hasQ == \E k \in 1..Len(cl) : HasOp(cl[k], "forall") \/ HasOp(cl[k], "exists")
  IN Refuted(prem, cl, IF pure /\ ~hasQ THEN {1} ELSE {1, 2})
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- Decl
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* exhaustive equations: every left side against every small right side
XL == (IteL \cup NotL \cup BoolL \cup {Imp(z1, z2) : z1 \in Fm, z2 \in Fm} \cup {Eq(z1, z2) : z1 \in Fm, z2 \in Fm}
      \cup {T(o, z) : o \in {"and", "or"}, z \in AoLists} \cup {All(XU, TT), Exi(XU, FF)})
XR == Fm \cup {r, Not(r), a, b, c, And(<<Not(p), q>>), And(<<p, Not(q)>>), Or(<<Not(p), q>>), Or(<<p, r>>), And(<<p, r>>), Or(<<p>>), And(<<q>>), Imp(q, r), Imp(Not(p), q)}
XLs == SetToSeq(XL)
XInit == st = 0
XNext == st < Len(XLs) /\ st' = st + 1
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE
  LET l == XLs[st] so == SortOf(l) IN st % Parts # Part \/ \A z \in XR : SortOf(z) # so \/ (
     LET cl == <<Eq(l, z)>> IN RefutedC(<<>>, cl) => PrintT("CASE\tbad\texhaustive\t\t" \o Cl(cl) \o "\t\t0"))
=============================================================================
