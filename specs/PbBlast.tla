------------------------------ MODULE PbBlast ------------------------------
(* C18: the documented pseudo-Boolean constraints of the pbblast rules for bit-vectors of width W. A bit
   is ((_ @int_of k) x), or the k-th argument when the operand is a @pbbterm; those are 0/1 here. *)
EXTENDS SemA
CONSTANTS W, MaxEdits, Part, Parts
VARIABLE st

A == BVx("A", W) B == BVx("B", W)
i == L("i") j == L("j") k == L("k") l == L("l")
DeclP == "(declare-fun i () Int)(declare-fun j () Int)(declare-fun k () Int)(declare-fun l () Int)" \o
         Join([m \in 1..2 |-> "(declare-fun " \o <<"A", "B">>[m] \o " () (_ BitVec " \o ToString(W) \o "))"], "")
PB(bits) == T("@pbbterm", bits)
Bits(t) == IF t.o = "@pbbterm" THEN t.a ELSE [m \in 1..WidthOf(t) |-> Ix("@int_of", m - 1, 0, <<t>>)]
\* the sum of the bits 1..n with their weights; the weight of the lowest bit may be left out
Sum(x, n, one) == LET z == [m \in 1..n |-> IF m = 1 /\ one THEN Bits(x)[m] ELSE T("*", <<N(P2(m - 1)), Bits(x)[m]>>)]
                  IN IF n = 1 THEN z[1] ELSE T("+", z)
Minus(x, y) == T("-", <<x, y>>)
Ge(x, n) == T(">=", <<x, N(n)>>)
Unsigned(x, y, one) == Minus(Sum(x, W, one), Sum(y, W, one))
Top(x) == T("*", <<N(P2(W - 1)), Bits(x)[W]>>)
Signed(x, y, one) == T("+", <<Minus(Sum(x, W - 1, one), Top(x)), Minus(Top(y), Sum(y, W - 1, one))>>)
Z == L("z")
XorC(x, y, z) == And(<<T(">=", <<T("+", <<x, y>>), z>>), T(">=", <<T("+", <<z, x>>), y>>), T(">=", <<T("+", <<z, y>>), x>>), T(">=", <<N(2), T("+", <<z, x, y>>)>>)>>)
AndC(x, y, z) == And(<<T(">=", <<x, z>>), T(">=", <<y, z>>), T(">=", <<T("+", <<z, N(1)>>), T("+", <<x, y>>)>>)>>)
ChoC(F(_, _, _), x, y) == Cho(<<<<"z", "Int">>>>, F(x, y, Z))
\* the rule and the right-hand side of a term
Circ(t, one) ==
  LET x == t.a[1] y == t.a[2] IN
  CASE t.o = "=" -> <<"pbblast_bveq", Eq(Unsigned(x, y, one), N(0))>>
    [] t.o = "bvult" -> <<"pbblast_bvult", Ge(Unsigned(y, x, one), 1)>>
    [] t.o = "bvugt" -> <<"pbblast_bvugt", Ge(Unsigned(x, y, one), 1)>>
    [] t.o = "bvuge" -> <<"pbblast_bvuge", Ge(Unsigned(x, y, one), 0)>>
    [] t.o = "bvule" -> <<"pbblast_bvule", Ge(Unsigned(y, x, one), 0)>>
    [] t.o = "bvslt" -> <<"pbblast_bvslt", Ge(Signed(y, x, one), 1)>>
    [] t.o = "bvsgt" -> <<"pbblast_bvsgt", Ge(Signed(x, y, one), 1)>>
    [] t.o = "bvsge" -> <<"pbblast_bvsge", Ge(Signed(x, y, one), 0)>>
    [] t.o = "bvsle" -> <<"pbblast_bvsle", Ge(Signed(y, x, one), 0)>>
    [] t.o = "bvxor" -> <<"pbblast_bvxor", PB([m \in 1..W |-> ChoC(XorC, Bits(x)[m], Bits(y)[m])])>>
    [] t.o = "bvand" -> <<"pbblast_bvand", PB([m \in 1..W |-> ChoC(AndC, Bits(x)[m], Bits(y)[m])])>>
I4 == <<i, j, N(1), k, N(0), l>>
X1 == PB([m \in 1..W |-> I4[((m - 1) % 6) + 1]])
X2 == PB([m \in 1..W |-> I4[((m + 2) % 6) + 1]])
X3 == PB([m \in 1..W |-> I4[(m % 2) + 1]])
Rels == {"=", "bvult", "bvugt", "bvuge", "bvule"} \cup (IF W >= 2 THEN {"bvslt", "bvsgt", "bvsge", "bvsle"} ELSE {})
Ops == Rels \cup {"bvxor", "bvand"}
Pairs == {<<A, B>>, <<B, A>>, <<A, A>>, <<X1, X2>>, <<X3, X1>>, <<A, BVc(1, W)>>, <<T("bvnot", <<A>>), B>>}
MixPairs == {<<A, X1>>, <<X3, B>>}
Terms1 == {T(o, z) : o \in Ops, z \in Pairs} \cup {T(o, z) : o \in {"bvxor", "bvand"}, z \in MixPairs}
S(rule, eq) == [r |-> rule, prem |-> <<>>, cl |-> <<eq>>, args |-> <<>>]
ConstSeeds == {S("pbblast_pbbconst", Eq(BVc(n, W), PB([m \in 1..W |-> N(Bit(n, m - 1))]))) : n \in IF W <= 4 THEN 0..(P2(W) - 1) ELSE {0, 1, P2(W - 1), P2(W) - 1, P2(W) - 2}}
VarSeeds == {S("pbblast_pbbvar", Eq(x, PB(Bits(x)))) : x \in {A, B, T("bvadd", <<A, B>>)}}
IthSeeds == UNION {{[r |-> "pbblast_bvxor_ith_bit", prem |-> <<>>, cl |-> <<XorC(z[1], z[2], ChoC(XorC, z[1], z[2]))>>, args |-> z],
                    [r |-> "pbblast_bvand_ith_bit", prem |-> <<>>, cl |-> <<AndC(z[1], z[2], ChoC(AndC, z[1], z[2]))>>, args |-> z]}
                   : z \in {<<i, j>>, <<Bits(A)[1], Bits(B)[W]>>, <<N(1), j>>}}
Seeds == {S(Circ(t, one)[1], Eq(t, Circ(t, one)[2])) : t \in Terms1, one \in BOOLEAN} \cup ConstSeeds \cup VarSeeds \cup (IF W = 1 THEN IthSeeds ELSE {})
Pool == ("Bool" :> {TT, FF}) @@ ("Int" :> {i, l, N(0), N(1), N(2), Ix("@int_of", 0, 0, <<A>>)}) @@ (("BV" \o ToString(W)) :> {A, B, BVc(0, W)})
Sample == {0, 1, 2, P2(W - 1) - 1, P2(W - 1), P2(W) - 2, P2(W) - 1, (2 * P2(W)) \div 3}
DomP(x) == IF x.w = 0 THEN {<<0, 1>>, <<1, 1>>} ELSE IF x.w <= 3 THEN 0..(P2(x.w) - 1) ELSE Sample
ValsP(vars) ==
  LET names == {x.o : x \in vars}
      RECURSIVE Build(_)
      Build(ns) == IF ns = {} THEN {("/0" :> 0) @@ ("ch" :> z) : z \in {0, 1}}
                   ELSE LET o == CHOOSE z \in ns : TRUE IN
                        UNION {{fn @@ (o :> v) : v \in DomP(CHOOSE x \in vars : x.o = o)} : fn \in Build(ns \ {o})}
  IN Build(names)
RefutedC(prem, c) == \E V \in ValsP(VarsOfC(prem, c)) : (\A m \in 1..Len(prem) : HoldsA(prem[m], V)) /\ ~HoldsA(c, V)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclP
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* each operator with the constraints of the others
TermSeq == SetToSeq(Terms1)
XInit == st = 0
XNext == st = 0 /\ st' \in 1..Len(TermSeq)
XRow(class, rule, eq) == PrintT("CASE\t" \o class \o "\t" \o rule \o "\t\t" \o Cl(<<eq>>) \o "\t\t0")
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o DeclP) ELSE
  LET t == TermSeq[st] IN
  \A z \in {Circ(x, TRUE)[2] : x \in {y \in Terms1 : SortOf(y) = SortOf(t) /\ {y.a[1], y.a[2]} = {t.a[1], t.a[2]}}} : (z # Circ(t, TRUE)[2] /\ RefutedC(<<>>, <<Eq(t, z)>>)) => XRow("bad", Circ(t, TRUE)[1], Eq(t, z))
=============================================================================
