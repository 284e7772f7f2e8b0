------------------------------ MODULE ArithSimp ------------------------------
(* C13: the arithmetic tautology rules (la_disequality, la_totality, la_tautology, la_rw_eq,
   la_mult_pos, la_mult_neg) as schemas, and the arithmetic simplifications (sums, products,
   differences, quotients, moduli, comparisons) as functions from terms to simplified terms.
   XNext: every left side over a small universe against every small right side. *)
EXTENDS SemA
CONSTANTS MaxEdits, Part, Parts, Sorts
VARIABLE st

i == L("i") j == L("j") k == L("k") u == L("u") v == L("v")
Le(x, y) == T("<=", <<x, y>>)
Ge(x, y) == T(">=", <<x, y>>)
Lt(x, y) == T("<", <<x, y>>)
Gt(x, y) == T(">", <<x, y>>)
Add(x, y) == T("+", <<x, y>>)
Mul(x, y) == T("*", <<x, y>>)
Sub(x, y) == T("-", <<x, y>>)
Neg(x) == T("-", <<x>>)
Sd(r, cl) == [r |-> r, prem |-> <<>>, cl |-> <<cl>>, args |-> <<>>]

Pairs == {<<i, j>>, <<i, N(2)>>, <<Add(i, j), Mul(N(2), k)>>, <<u, v>>, <<Sub(u, v), R(1, 2)>>, <<N(1), N(3)>>, <<i, i>>}
SchemaSeeds ==
  UNION {{Sd("la_disequality", Or(<<Eq(z[1], z[2]), Not(Le(z[1], z[2])), Not(Le(z[2], z[1]))>>)),
          Sd("la_totality", Or(<<Le(z[1], z[2]), Le(z[2], z[1])>>)),
          Sd("la_rw_eq", Eq(Eq(z[1], z[2]), And(<<Le(z[1], z[2]), Le(z[2], z[1])>>)))} : z \in Pairs}
Num1(x, n) == IF SortOf(x) = "Int" THEN N(n) ELSE R(n, 1)
TautSeeds ==
  UNION {UNION {LET d == Num1(x, n) e == Num1(x, n + 1) IN
    {Sd("la_tautology", Or(<<Not(Le(x, d)), Le(x, e)>>)), Sd("la_tautology", Or(<<Not(Le(x, d)), Le(x, d)>>)), Sd("la_tautology", Or(<<Le(x, d), Not(Le(x, d))>>)),
     Sd("la_tautology", Or(<<Not(Ge(x, e)), Ge(x, d)>>)), Sd("la_tautology", Or(<<Ge(x, d), Not(Ge(x, d))>>)), Sd("la_tautology", Or(<<Not(Le(x, d)), Not(Ge(x, e))>>)),
     Sd("la_tautology", Lt(x, Add(x, Num1(x, 1)))), Sd("la_tautology", Le(Sub(x, e), Sub(x, d))), Sd("la_tautology", Not(Gt(x, Add(e, Sub(x, d))))),
     Sd("la_tautology", Not(Eq(Add(x, d), Add(e, x)))), Sd("la_tautology", Ge(x, x)), Sd("la_tautology", Not(Lt(Mul(Num1(x, 2), x), Add(x, x))))} : n \in {-1, 0, 1}} : x \in {i, u, Add(i, j)}}
CmpOps == {"=", "<", ">", "<=", ">="}
FlipOp(o) == CASE o = "<" -> ">" [] o = "<=" -> ">=" [] o = ">" -> "<" [] o = ">=" -> "<=" [] OTHER -> o
MulSeeds ==
  UNION {UNION {LET m == z[1] l == z[2] r == z[3] zero == Num1(m, 0) IN
    {Sd("la_mult_pos", Imp(And(<<Gt(m, zero), T(o, <<l, r>>)>>), T(o, <<Mul(m, l), Mul(m, r)>>))),
     Sd("la_mult_neg", Imp(And(<<Lt(m, zero), T(o, <<l, r>>)>>), T(FlipOp(o), <<Mul(m, l), Mul(m, r)>>)))}
    : z \in {<<i, j, k>>, <<N(2), i, N(-1)>>, <<N(-2), i, Add(i, j)>>, <<u, v, R(1, 2)>>, <<Add(i, N(1)), i, j>>}} : o \in CmpOps}

------------------------------------------------------------------------------
\* constants: literals, their negations, and quotients of these (the divisor is not zero)
SNum(t) == t.o \in {"#int", "#real"}
ValOf(t) == EvA(t, [x \in {"/0"} |-> 0])
IsFrac(t) == SNum(t) \/ (t.o \in {"/", "div"} /\ Len(t.a) = 2 /\ SNum(t.a[1]) /\ SNum(t.a[2]) /\ t.a[2].n # 0)
Con(q, so) == IF so = "Int" THEN N(q[1]) ELSE R(q[1], q[2])
SumProd(t, unit, F(_, _)) ==
  LET so == SortOf(t)
      tot == FoldLeft(LAMBDA acc, x : IF IsFrac(x) THEN F(acc, ValOf(x)) ELSE acc, unit, t.a)
      rest == SelectSeq(t.a, LAMBDA x : ~IsFrac(x))
      all == IF t.o = "*" /\ tot = <<0, 1>> THEN <<Con(tot, so)>> ELSE (IF tot = unit THEN <<>> ELSE <<Con(tot, so)>>) \o rest
  IN IF all = <<>> THEN Con(unit, so) ELSE IF Len(all) = 1 THEN all[1] ELSE T(t.o, all)
\* the documented results of each rule on a term: a set of <<rule, result>>
IsZero(t) == SNum(t) /\ t.n = 0
IsOne(t) == (t.o = "#int" /\ t.n = 1) \/ (t.o = "#real" /\ t.n = t.w)
Simps(t) ==
  LET x == t.a[1] y == t.a[2] so == SortOf(t) IN
  CASE t.o = "+" -> {<<"sum_simplify", SumProd(t, <<0, 1>>, RAdd)>>}
    [] t.o = "*" -> {<<"prod_simplify", SumProd(t, <<1, 1>>, RMul)>>}
    [] t.o = "-" /\ Len(t.a) = 1 -> (IF x.o = "-" /\ Len(x.a) = 1 THEN {<<"minus_simplify", x.a[1]>>} ELSE {}) \cup (IF SNum(x) THEN {<<"minus_simplify", Con(RNeg(ValOf(x)), so)>>} ELSE {})
    [] t.o = "-" /\ Len(t.a) = 2 ->
        CASE x = y -> {<<"minus_simplify", Con(<<0, 1>>, so)>>}
          [] IsZero(y) -> {<<"minus_simplify", x>>}
          [] IsZero(x) -> {<<"minus_simplify", Neg(y)>>}
          [] SNum(x) /\ SNum(y) -> {<<"minus_simplify", Con(RAdd(ValOf(x), RNeg(ValOf(y))), so)>>}
          [] OTHER -> {}
    [] t.o \in {"div", "/"} ->
        IF IsOne(y) THEN {<<"div_simplify", x>>}
        ELSE IF SNum(x) /\ SNum(y) /\ ~IsZero(y) THEN {<<"div_simplify", Con(ValOf(t), so)>>} ELSE {}
    [] t.o = "mod" -> IF SNum(x) /\ SNum(y) /\ ~IsZero(y) THEN {<<"mod_simplify", N(ValOf(t)[1])>>} ELSE {}
    [] t.o = "<" -> {<<"comp_simplify", IF IsFrac(x) /\ IsFrac(y) THEN (IF RLt(ValOf(x), ValOf(y)) THEN TT ELSE FF) ELSE IF x = y THEN FF ELSE Not(Le(y, x))>>}
    [] t.o = "<=" -> IF IsFrac(x) /\ IsFrac(y) THEN {<<"comp_simplify", IF RLe(ValOf(x), ValOf(y)) THEN TT ELSE FF>>} ELSE IF x = y THEN {<<"comp_simplify", TT>>} ELSE {}
    [] t.o = ">" -> {<<"comp_simplify", Not(Le(x, y))>>}
    [] t.o = ">=" -> {<<"comp_simplify", Le(y, x)>>}
    [] OTHER -> {}
Both == {"sum_simplify", "prod_simplify", "minus_simplify", "comp_simplify"}
EqSeeds(ts) == UNION {UNION {{Sd(z[1], Eq(t, z[2]))} \cup (IF z[1] \in Both THEN {Sd(z[1], Eq(z[2], t))} ELSE {}) : z \in {w \in Simps(t) : w[2] # t}} : t \in ts}
Leaf(so) == IF so = "Int" THEN {i, j, N(0), N(1), N(2), N(-1), N(-3)} ELSE {u, v, R(0, 1), R(1, 1), R(1, 2), R(-2, 1), R(3, 1)}
Bin(so) == IF so = "Int" THEN {"+", "-", "*", "div", "mod", "<", "<=", ">", ">="} ELSE {"+", "-", "*", "/", "<", "<=", ">", ">="}
Lefts(so) == {T(o, <<x, y>>) : o \in Bin(so), x \in Leaf(so), y \in Leaf(so)} \cup {Neg(Neg(x)) : x \in Leaf(so)} \cup {Neg(x) : x \in Leaf(so)}
             \cup {T(o, <<x, y, z>>) : o \in {"+", "*"}, x \in Leaf(so), y \in Leaf(so), z \in Leaf(so)}
Extra == {T(o, <<T("div", <<N(7), N(-2)>>), x>>) : o \in {"+", "*", "<", "<="}, x \in {i, N(-3), N(-4)}}
         \cup {T(o, <<x, T("div", <<N(-7), N(2)>>)>>) : o \in {"+", "*", "<", "<="}, x \in {i, N(-4), N(-3)}}
         \cup {T(o, <<T("/", <<R(1, 1), R(4, 1)>>), x>>) : o \in {"+", "*", "<", "<="}, x \in {u, R(1, 4), R(1, 2)}}
         \cup {T(o, <<x, T("div", <<N(3), N(0)>>), y>>) : o \in {"+", "*"}, x \in {N(2), i}, y \in {N(2), j}}
         \cup {T(o, <<Mul(N(2), i), x, Add(i, N(1))>>) : o \in {"+", "*"}, x \in {N(1), N(3), j}}
         \cup {T(o, <<Add(i, j), Add(i, j)>>) : o \in {"-", "<", "<="}}
Seeds == SchemaSeeds \cup TautSeeds \cup MulSeeds
         \cup EqSeeds(Extra \cup {T(o, <<i, N(2)>>) : o \in Bin("Int")} \cup {T(o, <<N(-3), N(2)>>) : o \in Bin("Int")} \cup {T(o, <<R(1, 2), u>>) : o \in Bin("Real")}
                      \cup {T(o, <<N(2), i, N(3), j>>) : o \in {"+", "*"}})
Pool == [Bool |-> {TT, FF}, Int |-> {i, j, N(0), N(1), N(-2)}, Real |-> {u, v, R(0, 1), R(1, 1), R(1, 2)}]
Doms == [Int |-> {I2R(n) : n \in {-3, -1, 0, 1, 2}}, Real |-> {I2R(-1), I2R(0), <<1, 2>>, <<3, 4>>, I2R(2)}]
RefutedC(prem, cl) == RefutedA(prem, cl, Doms)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- Decl
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* exhaustive: each left side of the universe against all small terms, and its simplification
LeftSeq == SetToSeq(UNION {Lefts(so) : so \in Sorts} \cup Extra)
Rights(so) == Leaf(so) \cup (IF so = "Int" THEN {N(3), N(-2), Neg(i), Add(i, j), Mul(N(2), i), Sub(i, j), T("div", <<i, j>>)} ELSE {Neg(u), R(-1, 2), R(1, 4), R(-4, 1), Mul(R(2, 1), u), Add(u, v), T("/", <<u, v>>), T("/", <<R(1, 1), R(-2, 1)>>)})
              \cup {}
XInit == st = 0
XNext == \/ st = 0 /\ st' \in {-w : w \in 1..64}
         \/ st < 0 /\ \E n \in {m \in 1..Len(LeftSeq) : m % 64 = (-st) % 64} : st' = n
XRow(class, rule, eq) == PrintT("CASE\t" \o class \o "\t" \o rule \o "\t\t" \o Cl(<<eq>>) \o "\t\t0")
XEmit == IF st < 0 THEN TRUE ELSE IF st = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE
  LET l == LeftSeq[st] so == SortOf(l)
      rs == IF so = "Bool" THEN {TT, FF, Le(l.a[1], l.a[2]), Le(l.a[2], l.a[1]), Lt(l.a[1], l.a[2]), Not(Le(l.a[1], l.a[2])), Not(Le(l.a[2], l.a[1])), Not(Lt(l.a[1], l.a[2]))} ELSE Rights(so)
      main == CASE l.o = "+" -> "sum_simplify" [] l.o = "*" -> "prod_simplify" [] l.o = "-" -> "minus_simplify" [] l.o \in {"/", "div"} -> "div_simplify" [] l.o = "mod" -> "mod_simplify" [] OTHER -> "comp_simplify"
  IN /\ \A z \in EqSeeds({l}) : Assert(~RefutedC(<<>>, z.cl), <<"simplification refuted", Cl(z.cl)>>) /\ XRow("ok", z.r, z.cl[1])
     /\ \A r \in rs : (RefutedC(<<>>, <<Eq(l, r)>>) => XRow("bad", main, Eq(l, r)) /\ XRow("bad", main, Eq(r, l)))
=============================================================================
