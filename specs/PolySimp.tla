------------------------------ MODULE PolySimp ------------------------------
(* C14: polynomial normal forms. A polynomial is a function from monomials (bags of atoms) to rational
   coefficients; for bit-vectors of width W coefficients are taken modulo 2^W. Terms with the same
   normal form are documented instances of poly_simp; poly_simp_rel compares differences. *)
EXTENDS SemA
CONSTANTS Mode, W, MaxEdits, Part, Parts     \* Mode: "Int", "Real" or "BV"
VARIABLE st

BvMode == Mode = "BV"
i == L("i") j == L("j") k == L("k") u == L("u") v == L("v")
A == BVx("A", W) B == BVx("B", W) C == BVx("C", W)
DeclP == "(declare-fun i () Int)(declare-fun j () Int)(declare-fun k () Int)(declare-fun u () Real)(declare-fun v () Real)" \o
         Join([m \in 1..3 |-> "(declare-fun " \o <<"A", "B", "C">>[m] \o " () (_ BitVec " \o ToString(W) \o "))"], "")

Zero == [m \in {} |-> <<0, 1>>]
NoAtom == [x \in {} |-> 0]
Cst(r) == IF r[1] = 0 THEN Zero ELSE (NoAtom :> r)
Get(f, x, dflt) == IF x \in DOMAIN f THEN f[x] ELSE dflt
MMul(m1, m2) == [x \in DOMAIN m1 \cup DOMAIN m2 |-> Get(m1, x, 0) + Get(m2, x, 0)]
PAdd(f, g) == LET s(m) == RAdd(Get(f, m, <<0, 1>>), Get(g, m, <<0, 1>>)) IN [m \in {x \in DOMAIN f \cup DOMAIN g : s(x)[1] # 0} |-> s(m)]
PScale(f, r) == IF r[1] = 0 THEN Zero ELSE [m \in DOMAIN f |-> RMul(f[m], r)]
PMul(f, g) == FoldSet(LAMBDA m, acc : PAdd(acc, LET sh == [x \in {MMul(m, y) : y \in DOMAIN g} |-> RMul(f[m], g[CHOOSE y \in DOMAIN g : MMul(m, y) = x])] IN sh), Zero, DOMAIN f)
PMod(f) == [m \in {x \in DOMAIN f : f[x][1] % P2(W) # 0} |-> <<f[m][1] % P2(W), 1>>]
IsConst(t) == t.o \in {"#int", "#real"} \/ (t.o = "-" /\ Len(t.a) = 1 /\ t.a[1].o \in {"#int", "#real"})
RECURSIVE Poly0(_)
Poly0(t) ==
  LET p(m) == Poly0(t.a[m])
      n == Len(t.a)
      seq(F(_, _)) == FoldLeft(LAMBDA acc, x : F(acc, Poly0(x)), p(1), Tail(t.a))
  IN CASE t.o = "#bv" -> Cst(<<t.n, 1>>)
       [] t.o = "#int" -> Cst(<<t.n, 1>>)
       [] t.o = "#real" -> Cst(Rat(t.n, t.w))
       [] t.o \in {"+", "bvadd"} -> seq(PAdd)
       [] t.o \in {"*", "bvmul"} -> seq(PMul)
       [] t.o = "bvneg" \/ (t.o = "-" /\ n = 1) -> PScale(p(1), <<-1, 1>>)
       [] t.o \in {"-", "bvsub"} -> seq(LAMBDA x, y : PAdd(x, PScale(y, <<-1, 1>>)))
       [] t.o = "to_real" -> p(1)
       [] t.o = "/" /\ n = 2 /\ t.a[2].o = "#real" /\ t.a[2].n # 0 -> PScale(p(1), RInv(Rat(t.a[2].n, t.a[2].w)))
       [] OTHER -> ((t :> 1) :> <<1, 1>>)
PolyOf(t) == IF BvMode THEN PMod(Poly0(t)) ELSE Poly0(t)

\* the normal form written as a term: the monomials in some order
Num(r) == CASE Mode = "Int" -> N(r[1]) [] Mode = "Real" -> R(r[1], r[2]) [] OTHER -> BVc(r[1], W)
Mu(s) == T(IF BvMode THEN "bvmul" ELSE "*", s)
Ad(s) == T(IF BvMode THEN "bvadd" ELSE "+", s)
Real1(t) == IF Mode = "Real" /\ SortOf(t) = "Int" THEN T("to_real", <<t>>) ELSE t
MonoT(m, r) == LET as == FlattenSeq([x \in 1..Cardinality(DOMAIN m) |-> LET y == SetToSeq(DOMAIN m)[x] IN [z \in 1..m[y] |-> Real1(y)]])
                   pr == IF as = <<>> THEN Num(r) ELSE IF r = <<1, 1>> THEN (IF Len(as) = 1 THEN as[1] ELSE Mu(as)) ELSE Mu(<<Num(r)>> \o as)
               IN pr
NfT(f, rev) == LET z == SetToSeq(DOMAIN f)
                   s == [m \in 1..Len(z) |-> MonoT(z[m], f[z[m]])]
                   s2 == IF rev THEN Reverse(s) ELSE s
               IN IF s = <<>> THEN Num(<<0, 1>>) ELSE IF Len(s) = 1 THEN s[1] ELSE Ad(s2)

X == CASE Mode = "Int" -> i [] Mode = "Real" -> u [] OTHER -> A
Y == CASE Mode = "Int" -> j [] Mode = "Real" -> v [] OTHER -> B
Q == CASE Mode = "Int" -> k [] Mode = "Real" -> T("to_real", <<i>>) [] OTHER -> C
Sb(x, y) == T(IF BvMode THEN "bvsub" ELSE "-", <<x, y>>)
Ng(x) == T(IF BvMode THEN "bvneg" ELSE "-", <<x>>)
K(n) == Num(<<IF BvMode THEN n % P2(W) ELSE n, 1>>)
A2(x, y) == Ad(<<x, y>>)
M2(x, y) == Mu(<<x, y>>)
Atoms == CASE Mode = "Int" -> {T("div", <<i, j>>), T("mod", <<i, N(2)>>), T("abs", <<i>>)}
           [] Mode = "Real" -> {T("/", <<u, v>>), T("to_real", <<T("+", <<i, N(1)>>)>>), T("/", <<u, R(2, 1)>>), T("/", <<A2(u, v), R(3, 1)>>), T("/", <<T("*", <<R(2, 1), u>>), R(-4, 1)>>), T("/", <<u, R(0, 1)>>)}
           [] OTHER -> {T("bvand", <<A, B>>), T("bvnot", <<A>>), T("bvudiv", <<A, B>>)}
Base == {X, Y, K(0), K(1), K(2), K(3), K(-1), Ng(X), Ng(Ng(X)), A2(X, X), Ad(<<X, X, X, X>>), Ad(<<X, Y, Q>>), Ad(<<Q, X, K(1), Y>>), Sb(X, Y), Sb(Y, X), Sb(X, X), Sb(K(1), X),
         M2(X, Y), M2(Y, X), M2(K(2), X), M2(X, K(2)), M2(K(-1), X), M2(K(4), X), M2(K(0), X), M2(K(3), A2(X, Y)), M2(X, A2(Y, K(1))), M2(A2(X, Y), A2(X, Y)), M2(A2(X, Y), Sb(X, Y)),
         Mu(<<X, X, X>>), Mu(<<A2(X, K(1)), Q, X>>), Mu(<<K(2), X, K(2)>>), Sb(A2(X, Y), Y), Sb(X, Ng(Y)), A2(X, Ng(X)), A2(M2(K(2), X), M2(K(-2), X)), Ng(A2(X, Y)), Ng(Sb(X, Y)),
         A2(M2(X, X), Ng(M2(Y, Y))), Sb(K(3), K(5)), M2(K(3), K(3)), A2(X, M2(K(2), Sb(Y, X))), M2(Ng(X), Ng(Y)), Ad(<<X, K(1), K(1), K(2)>>)}
        \cup {T(IF BvMode THEN "bvsub" ELSE "-", <<X, Y, K(1)>>) : z \in IF BvMode THEN {} ELSE {1}}
        \cup Atoms \cup {A2(x, X) : x \in Atoms} \cup {Sb(A2(x, x), x) : x \in Atoms} \cup {M2(K(2), x) : x \in Atoms} \cup {M2(x, M2(X, x)) : x \in Atoms}
BaseSeq == SetToSeq(Base)
S(rule, prem, c, as) == [r |-> rule, prem |-> prem, cl |-> c, args |-> as]
Names == IF BvMode THEN {"poly_simp", "bv_poly_simp"} ELSE {"poly_simp"}
SimpSeeds == UNION {{S(r, <<>>, <<Eq(t, z)>>, <<>>) : z \in {NfT(PolyOf(t), FALSE), NfT(PolyOf(t), TRUE)}} \cup {S(r, <<>>, <<Eq(NfT(PolyOf(t), FALSE), t)>>, <<>>)} : t \in Base, r \in Names}
\* relations: c1 (x1 - x2) = c2 (y1 - y2)
Coefs == CASE Mode = "Int" -> {N(1), N(2), N(-3)} [] Mode = "Real" -> {R(1, 2), R(2, 1), R(-1, 1)} [] OTHER -> {BVc(n, W) : n \in {1, 3, 5} \cap 0..(P2(W) - 1)}
Pos(c) == c.n > 0
RelOps == IF BvMode THEN {"="} ELSE {"=", "<", "<=", ">", ">="}
RelPairs == {<<X, Y>>, <<X, K(1)>>, <<A2(X, Y), Q>>, <<K(0), Y>>}
RelSeeds == {S(IF BvMode THEN "bv_poly_simp_eq" ELSE "poly_simp_rel", <<<<Eq(M2(z[1], Sb(z[3][1], z[3][2])), M2(z[2], Sb(z[4][1], z[4][2])))>>>>, <<Eq(T(z[5], z[3]), T(z[5], z[4]))>>, <<>>) :
               z \in {y \in Coefs \X Coefs \X RelPairs \X RelPairs \X RelOps : (y[5] = "=" \/ Pos(y[1]) = Pos(y[2]))}}
  \cup (IF Mode = "Real" THEN {S("poly_simp_rel", <<<<Eq(M2(c, T("to_real", <<T("-", <<i, N(2)>>)>>)), M2(R(2, 1), T("-", <<u, v>>)))>>>>, <<Eq(T(o, <<i, N(2)>>), T(o, <<u, v>>))>>, <<>>) : c \in {R(1, 2), R(3, 1)}, o \in RelOps} ELSE {})
Seeds == SimpSeeds \cup RelSeeds
Pool == ("Bool" :> {TT, FF}) @@ ("Int" :> {i, N(0), N(2)}) @@ ("Real" :> {u, R(0, 1), R(1, 2)}) @@ (("BV" \o ToString(W)) :> {A, C, BVc(0, W), BVc(1, W), BVc(P2(W - 1), W)})
Sample == {0, 1, 2, 3, P2(W - 1), P2(W) - 1}
DomB(x) == IF x.w = 0 THEN (IF Sig[x.o] = "Int" THEN {I2R(n) : n \in {-2, 0, 1, 3}} ELSE {I2R(-1), I2R(0), <<1, 2>>, I2R(2)}) ELSE IF x.w <= 2 THEN 0..(P2(x.w) - 1) ELSE Sample
ValsB(vars) ==
  LET names == {x.o : x \in vars}
      RECURSIVE Build(_)
      Build(ns) == IF ns = {} THEN {("/0" :> z) : z \in {0, 2}}
                   ELSE LET o == CHOOSE z \in ns : TRUE IN
                        UNION {{fn @@ (o :> w) : w \in DomB(CHOOSE x \in vars : x.o = o)} : fn \in Build(ns \ {o})}
  IN Build(names)
RefutedC(prem, c) == \E V \in ValsB(VarsOfC(prem, c)) : (\A m \in 1..Len(prem) : HoldsA(prem[m], V)) /\ ~HoldsA(c, V)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclP
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* all pairs of terms of the universe
XInit == st = 0
XNext == st = 0 /\ st' \in 1..Len(BaseSeq)
XRow(class, eq) == \A r \in Names : PrintT("CASE\t" \o class \o "\t" \o r \o "\t\t" \o Cl(<<eq>>) \o "\t\t0")
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o DeclP) ELSE
  LET t == BaseSeq[st] f == PolyOf(t) IN
  \A s \in Base : IF PolyOf(s) = f THEN Assert(~RefutedC(<<>>, <<Eq(t, s)>>), <<"equal normal forms differ", Str(t), Str(s)>>) /\ XRow("ok", Eq(t, s))
                  ELSE RefutedC(<<>>, <<Eq(t, s)>>) => XRow("bad", Eq(t, s))
=============================================================================
