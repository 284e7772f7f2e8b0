------------------------------- MODULE CutP -------------------------------
(* C18: cutting planes. A constraint is a sum of coefficients times literals (a 0/1 variable or its
   complement) that is at least a constant. The inferences are functions on constraints; a written
   constraint may repeat literals and have zero coefficients. *)
EXTENDS SemA
CONSTANTS MaxEdits, Part, Parts
VARIABLE st

V4 == <<L("i"), L("j"), L("k"), L("l")>>
DeclC == "(declare-fun i () Int)(declare-fun j () Int)(declare-fun k () Int)(declare-fun l () Int)"
\* a literal is <<variable number, negated>>; a written sum is a sequence of <<coefficient, literal>>
LitT(x) == IF x[2] THEN T("-", <<N(1), V4[x[1]]>>) ELSE V4[x[1]]
SumT(s) == LET z == [m \in 1..Len(s) |-> T("*", <<NumLit(s[m][1]), LitT(s[m][2])>>)] IN
           IF z = <<>> THEN N(0) ELSE IF Len(z) = 1 THEN z[1] ELSE T("+", z)
ConT(c) == T(">=", <<SumT(c[1]), NumLit(c[2])>>)
\* meaning: coefficients by literal
Lits == {<<v, b>> : v \in 1..4, b \in BOOLEAN}
Coef(s) == [x \in Lits |-> FoldLeft(LAMBDA acc, y : IF y[2] = x THEN acc + y[1] ELSE acc, 0, s)]
LitSeq == <<<<1, FALSE>>, <<1, TRUE>>, <<2, FALSE>>, <<2, TRUE>>, <<3, FALSE>>, <<3, TRUE>>, <<4, FALSE>>, <<4, TRUE>>>>
Write(f) == LET z == SelectSeq(LitSeq, LAMBDA x : f[x] # 0) IN [m \in 1..Len(z) |-> <<f[z[m]], z[m]>>]
Mini(x, y) == IF x < y THEN x ELSE y
CeilD(x, d) == -((-x) \div d)
AddF(f, g) == LET s == [x \in Lits |-> f[x] + g[x]]
                  both(v) == Mini(s[<<v, FALSE>>], s[<<v, TRUE>>])
                  \* opposite literals cancel when both are written
                  has(v) == (f[<<v, FALSE>>] # 0 \/ g[<<v, FALSE>>] # 0) /\ (f[<<v, TRUE>>] # 0 \/ g[<<v, TRUE>>] # 0)
              IN <<[x \in Lits |-> IF has(x[1]) THEN s[x] - both(x[1]) ELSE s[x]], FoldLeft(LAMBDA acc, v : acc + IF has(v) THEN both(v) ELSE 0, 0, <<1, 2, 3, 4>>)>>
Added(c, d) == LET z == AddF(Coef(c[1]), Coef(d[1])) IN <<Write(z[1]), c[2] + d[2] - z[2]>>
Multd(c, n) == LET f == Coef(c[1]) IN <<Write([x \in Lits |-> n * f[x]]), n * c[2]>>
Divd(c, n) == LET f == Coef(c[1]) IN <<Write([x \in Lits |-> CeilD(f[x], n)]), CeilD(c[2], n)>>
Satd(c) == LET f == Coef(c[1]) IN <<Write([x \in Lits |-> Mini(f[x], c[2])]), c[2]>>
NonNeg(c) == c[2] >= 0 /\ \A x \in Lits : Coef(c[1])[x] >= 0

P(v) == <<v, FALSE>>
M(v) == <<v, TRUE>>
Cnst == << <<<<<<1, P(1)>>, <<1, P(2)>>>>, 1>>, <<<<<<1, M(1)>>, <<1, P(3)>>>>, 1>>, <<<<<<2, P(1)>>, <<3, M(2)>>>>, 3>>,
           <<<<<<2, P(1)>>, <<3, P(2)>>, <<5, M(3)>>>>, 4>>, <<<<<<1, P(1)>>>>, 1>>, <<<<<<3, M(1)>>>>, 2>>, <<<<<<1, M(2)>>, <<1, M(3)>>, <<1, M(4)>>>>, 2>>,
           <<<<<<1, P(1)>>, <<2, P(1)>>, <<1, P(2)>>>>, 2>>, <<<<<<1, P(1)>>, <<1, M(1)>>, <<2, P(2)>>>>, 2>>, <<<<<<0, P(1)>>, <<4, P(2)>>, <<6, M(4)>>>>, 5>>,
           <<<<<<-2, P(1)>>, <<3, P(2)>>>>, -1>>, <<<<<<2, P(1)>>, <<-3, M(2)>>, <<1, P(4)>>>>, 0>>, <<<<>>, -1>>, <<<<<<7, P(1)>>, <<7, M(2)>>>>, 0>>,
           <<<<<<-1, M(1)>>, <<2, P(3)>>>>, 1>> >>
CSet == {Cnst[m] : m \in 1..Len(Cnst)}
S(r, prem, c, as) == [r |-> r, prem |-> [m \in 1..Len(prem) |-> <<ConT(prem[m])>>], cl |-> <<ConT(c)>>, args |-> as]
Rev(c) == <<Reverse(c[1]), c[2]>>
AddSeeds == {S("cp_addition", <<c, d>>, Added(c, d), <<>>) : <<c, d>> \in {z \in CSet \X CSet : (NonNeg(z[1]) /\ NonNeg(z[2])) \/ (z[1] # Cnst[10] /\ z[2] # Cnst[10])}} \cup {S("cp_addition", <<c, d>>, Rev(Added(c, d)), <<>>) : c \in CSet, d \in {Cnst[1], Cnst[9]}}
MulSeeds == {S("cp_multiplication", <<c>>, Multd(c, n), <<N(n)>>) : c \in CSet, n \in {0, 1, 2, 7}}
DivSeeds == {S("cp_division", <<c>>, Divd(c, n), <<N(n)>>) : c \in CSet, n \in {1, 2, 3, 5, 100}}
SatSeeds == {S("cp_saturation", <<c>>, Satd(c), <<>>) : c \in {x \in CSet : NonNeg(x)}}
LitSeeds == {[r |-> "cp_literal", prem |-> <<>>, cl |-> <<T(">=", <<x, N(0)>>)>>, args |-> <<LitT(y)>>] :
               <<x, y>> \in UNION {{<<LitT(z), z>>, <<T("*", <<N(1), LitT(z)>>), z>>} : z \in {P(1), M(1), P(2), M(3)}}}
\* normalization: a relation between sums of variables, constants and differences
Flat(t) == LET RECURSIVE F(_)
               F(x) == CASE x.o = "+" -> LET z == [m \in 1..Len(x.a) |-> F(x.a[m])] IN
                                         <<FlattenSeq([m \in 1..Len(z) |-> z[m][1]]), FoldLeft(LAMBDA acc, y : acc + y[2], 0, z)>>
                         [] x.o = "-" -> LET z == [m \in 1..Len(x.a) |-> F(x.a[m])]
                                             ng(y) == <<[m \in 1..Len(y[1]) |-> <<-y[1][m][1], y[1][m][2]>>], -y[2]>>
                                             zz == [m \in 1..Len(z) |-> IF m = 1 /\ Len(z) > 1 THEN z[m] ELSE ng(z[m])]
                                         IN <<FlattenSeq([m \in 1..Len(zz) |-> zz[m][1]]), FoldLeft(LAMBDA acc, y : acc + y[2], 0, zz)>>
                         [] x.o \in {"#int", "#lit"} -> <<<<>>, x.n>>
                         [] x.o = "*" -> LET c == IF x.a[1].o \in {"#int", "#lit"} THEN x.a[1].n ELSE x.a[2].n
                                             v == IF x.a[1].o \in {"#int", "#lit"} THEN x.a[2] ELSE x.a[1]
                                         IN IF v.o = "-" THEN <<<<<<c, <<v.a[2], TRUE>>>>>>, 0>> ELSE <<<<<<c, <<v, FALSE>>>>>>, 0>>
                         [] OTHER -> <<<<<<1, <<x, FALSE>>>>>>, 0>>
           IN F(t)
\* coefficients made non-negative by complementing
Push(s, c) == <<[m \in 1..Len(s) |-> IF s[m][1] >= 0 THEN s[m] ELSE <<-s[m][1], <<s[m][2][1], ~s[m][2][2]>>>>],
                c - FoldLeft(LAMBDA acc, y : acc + IF y[1] < 0 THEN y[1] ELSE 0, 0, s)>>
NgS(s) == [m \in 1..Len(s) |-> <<-s[m][1], s[m][2]>>]
NormT(z, one) == LET lit(y) == IF y[2] THEN T("-", <<N(1), y[1]>>) ELSE y[1]
                     sm == [m \in 1..Len(z[1]) |-> IF one /\ z[1][m][1] = 1 THEN lit(z[1][m][2]) ELSE T("*", <<N(z[1][m][1]), lit(z[1][m][2])>>)]
                 IN T(">=", <<IF Len(sm) = 1 THEN sm[1] ELSE T("+", sm), NumLit(z[2])>>)
Norm(t, one) ==
  LET x == Flat(t.a[1]) y == Flat(t.a[2])
      s == x[1] \o NgS(y[1])
      c == y[2] - x[2]
  IN CASE t.o = ">=" -> NormT(Push(s, c), one)
       [] t.o = ">" -> NormT(Push(s, c + 1), one)
       [] t.o = "<=" -> NormT(Push(NgS(s), -c), one)
       [] t.o = "<" -> NormT(Push(NgS(s), 1 - c), one)
       [] t.o = "=" -> And(<<NormT(Push(s, c), one), NormT(Push(NgS(s), -c), one)>>)
Mulc(n, x) == T("*", <<NumLit(n), x>>)
i == V4[1] j == V4[2] k == V4[3]
Lhs == {i, T("-", <<i>>), T("-", <<N(1), i>>), Mulc(2, i), Mulc(-3, i), T("*", <<i, N(2)>>), T("+", <<i, j>>), T("-", <<i, j>>), T("-", <<i, j, N(2)>>), T("+", <<i, N(3), j>>),
        T("+", <<Mulc(2, i), Mulc(-1, j), T("-", <<N(1), k>>)>>), T("-", <<T("+", <<i, N(1)>>), T("-", <<j, Mulc(2, k)>>)>>), T("+", <<i, i>>), Mulc(2, T("-", <<N(1), i>>)),
        T("+", <<Mulc(-2, T("-", <<N(1), j>>)), i>>), T("-", <<T("+", <<i, j>>)>>)}
Rhs == {N(0), N(1), NumLit(-2), j, T("+", <<j, N(1)>>), T("-", <<N(2), k>>), Mulc(2, k)}
Rels == {T(o, <<x, y>>) : o \in {">=", ">", "<", "<=", "="}, x \in Lhs, y \in Rhs}
NormSeeds == {[r |-> "cp_normalize", prem |-> <<>>, cl |-> <<Eq(t, Norm(t, one))>>, args |-> <<>>] : t \in Rels, one \in BOOLEAN}
Seeds == AddSeeds \cup MulSeeds \cup DivSeeds \cup SatSeeds \cup LitSeeds \cup NormSeeds
Pool == [Bool |-> {TT, FF}, Int |-> {i, j, N(0), N(1), NumLit(-1)}]
Doms == [Int |-> {<<0, 1>>, <<1, 1>>}]
RefutedC(prem, c) == RefutedA(prem, c, Doms)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclC
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* all small conclusions over two variables from each premise (and pair), with any scalar
Prem1 == {<<c>> : c \in CSet} \cup {<<Cnst[1], Cnst[2]>>, <<Cnst[3], Cnst[4]>>, <<Cnst[5], Cnst[6]>>, <<Cnst[10], Cnst[11]>>, <<Cnst[9], Cnst[9]>>}
PremSeq == SetToSeq(Prem1)
Small == {<<SelectSeq(<<<<c1, <<1, b1>>>>, <<c2, <<2, b2>>>>>>, LAMBDA y : y[1] # 0), n>> : c1 \in {-1, 0, 1, 2, 3}, b1 \in BOOLEAN, c2 \in {0, 1, 3}, b2 \in BOOLEAN, n \in -1..4}
XInit == st = 0
XNext == st = 0 /\ st' \in 1..Len(PremSeq)
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o DeclC) ELSE
  LET pr == [m \in 1..Len(PremSeq[st]) |-> <<ConT(PremSeq[st][m])>>] IN
  \A c \in Small : RefutedC(pr, <<ConT(c)>>) =>
     \A d \in (IF Len(pr) = 2 THEN {""} ELSE {"", "0", "1", "2", "3", "-1", "-2"}) :
        PrintT("CASE\tbad\tcp\t" \o Cls(pr) \o "\t" \o Cl(<<ConT(c)>>) \o "\t" \o d \o "\t0")
=============================================================================
