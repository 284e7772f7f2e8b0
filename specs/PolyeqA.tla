------------------------------ MODULE PolyeqA ------------------------------
(* C26 over numbers: n-ary arithmetic, comparisons, and the spellings of numerical constants *)
EXTENDS SemA
CONSTANTS MaxD, MaxE, Part, Parts
VARIABLE st
p == L("p") i == L("i") j == L("j") k == L("k") u == L("u") v == L("v")
I2(o, s, t) == T(o, <<s, t>>) I3(o, s, t, z) == T(o, <<s, t, z>>)
Num == {I3(o, i, j, k) : o \in {"+", "-", "*"}} \cup {I2(o, i, j) : o \in {"+", "-"}} \cup {T("-", <<i>>), I2("-", T("-", <<i>>), j), T("-", <<I2("-", i, j)>>), I2("-", I2("-", i, j), k), I2("-", i, I2("-", j, k)),
         T("+", <<i, j, k, N(1)>>), I2("+", i, I2("+", j, k)), I2("*", N(2), i), I2("*", N(2), I3("+", i, j, k)), I2("div", i, j), I2("mod", i, N(2)), N(3), N(-3), T("-", <<i, j, k, i>>), T("-", <<T("-", <<i>>), j, k>>)}
Rel == {T(o, z) : o \in {"<", "<=", ">", ">=", "=", "distinct"}, z \in {<<i, j>>, <<i, j, k>>}} \cup {T("=", <<i, j, k, i>>), T("<", <<u, v, R(1, 2)>>), I2("<", u, T("/", <<u, R(2, 1)>>)), And(<<I2("<", i, j), I2("<", j, k)>>),
         Not(I3("<", i, j, k)), Eq(I3("+", i, j, k), N(1)), Eq(u, R(-1, 2)), Eq(T("-", <<u>>), R(1, 2)), And(<<I3("<", i, j, k), p>>)}
Seeds == {Eq(z, i) : z \in Num} \cup Rel
Pool == [Bool |-> {p}, Int |-> {i, j, N(0)}, Real |-> {u, R(1, 1)}]
Doms == [Int |-> {<<z, 1>> : z \in {-1, 0, 1, 2}}, Real |-> {<<z, 1>> : z \in {-1, 0, 1}} \cup {<<1, 2>>}]
Sep(s, t) == RefutedA(<<>>, <<Eq(s, t)>>, Doms)
Pm == INSTANCE PolyM WITH DeclText <- Decl, Separated <- Sep
Init == Pm!PInit
Next == Pm!PNext
Emit == Pm!PEmit
------------------------------------------------------------------------------
(* Numerical constants: <<text, numerator, denominator>>. Two spellings are only equal if they have the same value. *)
Lits == {<<"5", 5, 1>>, <<"(- 5)", -5, 1>>, <<"-5", -5, 1>>, <<"5.0", 5, 1>>, <<"-5.0", -5, 1>>, <<"(- 5.0)", -5, 1>>, <<"(- (- 5))", 5, 1>>, <<"0", 0, 1>>, <<"0.0", 0, 1>>, <<"(- 0)", 0, 1>>, <<"(- 0.0)", 0, 1>>,
         <<"0.5", 1, 2>>, <<"(- 0.5)", -1, 2>>, <<"-0.5", -1, 2>>, <<"1/2", 1, 2>>, <<"-1/2", -1, 2>>, <<"(/ 1.0 2.0)", 1, 2>>, <<"(/ 1 2)", 1, 2>>, <<"(- (/ 1.0 2.0))", -1, 2>>, <<"(/ (- 1.0) 2.0)", -1, 2>>, <<"(/ 1.0 (- 2.0))", -1, 2>>,
         <<"(/ (- 1) 2)", -1, 2>>, <<"(- (/ 1 2))", -1, 2>>, <<"(/ (- 1) (- 2))", 1, 2>>, <<"(/ -1 2)", -1, 2>>, <<"(/ 2.0 4.0)", 1, 2>>, <<"(/ 2.0 1.0)", 2, 1>>, <<"2.0", 2, 1>>, <<"2", 2, 1>>, <<"-2", -2, 1>>, <<"(/ -4.0 2.0)", -2, 1>>,
         <<"(/ -4.0 -2.0)", 2, 1>>, <<"(- -5)", 5, 1>>, <<"(- -0.5)", 1, 2>>, <<"10/4", 5, 2>>, <<"2.5", 5, 2>>, <<"5/2", 5, 2>>, <<"(/ 5 2)", 5, 2>>, <<"(/ 5.0 2.0)", 5, 2>>, <<"(/ (- 5) 2)", -5, 2>>, <<"-2.5", -5, 2>>, <<"(/ 5 (- 2))", -5, 2>>,
         <<"(/ -5 (- 2))", 5, 2>>, <<"(/ 0.5 0.2)", 5, 2>>, <<"(/ 4.0 2.0 2.0)", 1, 1>>, <<"1", 1, 1>>, <<"1.0", 1, 1>>, <<"-1", -1, 1>>, <<"(/ 1.0 1.0)", 1, 1>>, <<"(/ 0.0 1.0)", 0, 1>>, <<"(- 5 0)", 5, 1>>, <<"(+ 5)", 5, 1>>, <<"(* 5)", 5, 1>>}
LSeq == SetToSeq(Lits)
PInitC == \E m, h \in 1..Len(LSeq) : st = <<m, h>>
PNextC == st' = st
EmitC == LET s == LSeq[st[1]] t == LSeq[st[2]] IN PrintT("CASE\tlit\t" \o s[1] \o "\t" \o t[1] \o "\t" \o (IF s[2] = t[2] /\ s[3] = t[3] THEN "same" ELSE "differ"))
=============================================================================
