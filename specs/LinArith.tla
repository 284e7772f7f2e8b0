------------------------------ MODULE LinArith ------------------------------
(* C13: la_generic. A state is a clause of literals over linear sums of two variables (integers,
   reals, or an integer cast to the reals together with a real) and a list of coefficients. The
   negated literals are tightened when their sum can only take values that are multiples of some
   number (all its variables are integers), multiplied by the coefficients and added up. If the
   result is contradictory the step must be accepted, and (checked here) no valuation refutes the
   clause. A clause refuted by some valuation must be rejected, whatever the coefficients. *)
EXTENDS SemA, Randomization
CONSTANTS Fam, Mode, K
VARIABLE st

X == IF Mode = "int" THEN <<L("i"), L("j")>> ELSE IF Mode = "real" THEN <<L("u"), L("v")>> ELSE <<T("to_real", <<L("i")>>), L("u")>>
Integral(k) == Mode = "int" \/ (Mode = "mix" /\ k = 1)
Num(q) == IF Mode = "int" THEN N(q[1]) ELSE R(q[1], q[2])
Zero == <<0, 1>>
One == <<1, 1>>
RSub(x, y) == RAdd(x, RNeg(y))
RAbs(x) == IF x[1] < 0 THEN RNeg(x) ELSE x
RDiv(x, y) == RMul(x, RInv(y))

\* a literal: [neg, op, c: the two coefficients, d] stands for (not)? c1 x1 + c2 x2 op d
Sgn(l) == IF l.neg THEN l.op ELSE [x \in {"<", "<=", ">", ">=", "="} |-> CASE x = "<" -> ">=" [] x = "<=" -> ">" [] x = ">" -> "<=" [] x = ">=" -> "<" [] OTHER -> "#"][l.op]
Negated(l) == LET o == Sgn(l) IN
  IF o \in {"<", "<="} THEN [op |-> IF o = "<" THEN ">" ELSE ">=", c |-> [k \in 1..2 |-> RNeg(l.c[k])], d |-> RNeg(l.d)]
  ELSE [op |-> o, c |-> l.c, d |-> l.d]
GcdQ(x, y) == Rat(Gcd(AbsI(x[1]) * y[2], AbsI(y[1]) * x[2]), x[2] * y[2])
Tight(n) ==
  IF n.op = "=" \/ \E k \in 1..2 : n.c[k] # Zero /\ ~Integral(k) THEN n
  ELSE LET g0 == GcdQ(n.c[1], n.c[2]) g == IF g0 = Zero THEN One ELSE g0 q == RDiv(n.d, g)
           m == IF n.op = ">" THEN Floor(q) + 1 ELSE -(Floor(RNeg(q)))
       IN [n EXCEPT !.op = ">=", !.d = RMul(g, I2R(m))]
Scale(n, co) == IF co = Zero THEN [op |-> "=", c |-> <<Zero, Zero>>, d |-> Zero]
                ELSE LET z == IF n.op = "=" THEN co ELSE RAbs(co) IN [n EXCEPT !.c = [k \in 1..2 |-> RMul(z, n.c[k])], !.d = RMul(z, n.d)]
AddN(m, n) == [op |-> IF m.op = ">" \/ n.op = ">" THEN ">" ELSE IF m.op = ">=" \/ n.op = ">=" THEN ">=" ELSE "=",
               c |-> [k \in 1..2 |-> RAdd(m.c[k], n.c[k])], d |-> RAdd(m.d, n.d)]
Sum(ls, co) == FoldLeft(LAMBDA acc, k : AddN(acc, Scale(Tight(Negated(ls[k])), co[k])), [op |-> "=", c |-> <<Zero, Zero>>, d |-> Zero], [k \in 1..Len(ls) |-> k])
Contradictory(n) == /\ n.c = <<Zero, Zero>>
                    /\ CASE n.op = "=" -> n.d # Zero [] n.op = ">=" -> RLt(Zero, n.d) [] OTHER -> RLe(Zero, n.d)
Farkas(ls, co) == (\A k \in 1..Len(ls) : ls[k].op # "=" \/ ls[k].neg) /\ Contradictory(Sum(ls, co))

\* the text of a literal in one of several equivalent shapes
Mono(q, x, s) == CASE q = One /\ s % 3 # 1 -> x
                   [] q = <<-1, 1>> /\ s % 3 # 1 -> T("-", <<x>>)
                   [] s % 4 = 2 -> T("*", <<x, Num(q)>>)
                   [] s % 4 = 3 /\ q = I2R(2) -> T("+", <<x, x>>)
                   [] s % 5 = 3 -> T("-", <<T("*", <<Num(RNeg(q)), x>>)>>)
                   [] OTHER -> T("*", <<Num(q), x>>)
Monos(c, s) == (IF c[1] = Zero /\ s % 7 # 3 THEN <<>> ELSE <<Mono(c[1], X[1], s)>>) \o (IF c[2] = Zero /\ s % 5 # 2 THEN <<>> ELSE <<Mono(c[2], X[2], s)>>)
AddT(z) == IF z = <<>> THEN Num(Zero) ELSE IF Len(z) = 1 THEN z[1] ELSE T("+", z)
Mirror(o) == CASE o = "<" -> ">" [] o = "<=" -> ">=" [] o = ">" -> "<" [] o = ">=" -> "<=" [] OTHER -> o
Text(l, s) ==
  LET ms == Monos(l.c, s) D == Num(l.d)
      at == CASE s % 6 = 0 -> T(l.op, <<AddT(ms), D>>)
              [] s % 6 = 1 -> T(Mirror(l.op), <<D, AddT(ms)>>)
              [] s % 6 = 2 -> T(l.op, <<T("-", <<AddT(ms), D>>), Num(Zero)>>)
              [] s % 6 = 3 -> IF Len(ms) = 2 THEN T(l.op, <<ms[1], T("-", <<D, ms[2]>>)>>) ELSE T(l.op, <<T("+", <<AddT(ms), T("-", <<D>>)>>), Num(Zero)>>)
              [] s % 6 = 4 -> T(l.op, <<T("+", <<Num(One), AddT(ms)>>), Num(RAdd(l.d, One))>>)
              [] OTHER -> T(Mirror(l.op), <<T("-", <<Num(RAdd(l.d, I2R(3))), AddT(ms), Num(One)>>), Num(I2R(2))>>)
  IN IF l.neg THEN Not(at) ELSE at
\* (an equation written with its sides exchanged takes the opposite coefficient)
CoefS(q, s) == LET n == AbsI(q[1])
                   z == IF q[2] = 1 THEN ToString(n) \o (IF s % 2 = 0 THEN ".0" ELSE "")
                        ELSE IF s % 3 = 0 THEN "(div " \o ToString(n) \o " " \o ToString(q[2]) \o ")"
                        ELSE IF s % 3 = 1 THEN "(/ " \o ToString(n) \o ".0 " \o ToString(q[2]) \o ".0)"
                        ELSE ToString(n) \o "/" \o ToString(q[2])
               IN IF q[1] < 0 THEN "(- " \o z \o ")" ELSE z

Lit(neg, op, c1, c2, d) == [neg |-> neg, op |-> op, c |-> <<c1, c2>>, d |-> d]
Cs == {I2R(-2), I2R(-1), I2R(1), I2R(2)} \cup (IF K > 0 THEN {I2R(3)} ELSE {})
Ds == IF Mode = "int" THEN {I2R(-1), I2R(0), I2R(1)} \cup (IF K > 0 THEN {I2R(2)} ELSE {}) ELSE {I2R(-1), I2R(0), I2R(1), <<1, 2>>}
Shapes == {<<FALSE, "<">>, <<FALSE, "<=">>, <<FALSE, ">">>, <<FALSE, ">=">>, <<TRUE, "<">>, <<TRUE, "<=">>, <<TRUE, ">">>, <<TRUE, ">=">>, <<TRUE, "=">>}
Uni == {Lit(h[1], h[2], q, Zero, d) : h \in Shapes, q \in Cs, d \in Ds}
UniC == {Lit(h[1], h[2], q, z, d) : h \in Shapes, q \in {Zero, One}, z \in {Zero}, d \in Ds}
Bi == {Lit(h[1], h[2], q, z, d) : h \in Shapes, q \in Cs \cup {Zero}, z \in Cs \cup {Zero}, d \in Ds}
Some == IF K = 0 THEN 14 ELSE 40
\* the coefficient of x1 (or x2) in the negated literal decides the coefficients that can cancel it
CoefFor(l1, l2, co) == LET x == Negated(l1).c[1] y == Negated(l2).c[1] IN RAbs(RDiv(RMul(co, x), y))
MkS(ls, co) == [ph |-> 2, ls |-> ls, co |-> co, s |-> FoldLeft(LAMBDA acc, l : acc + l.c[1][1] + 2 * l.c[2][1] + 3 * l.d[1] + Len(l.op) + (IF l.neg THEN 1 ELSE 0), 60, ls)]
Cos1 == {Zero, One, I2R(-1), <<1, 2>>, I2R(3)}
\* the last literal is chosen so that the variables cancel, with its constant next to the limit
LastLits(ls, co, a3, h) ==
  LET sm == Sum(ls, co) c3 == [k \in 1..2 |-> RNeg(RDiv(sm.c[k], a3))] d0 == RNeg(RDiv(sm.d, a3))
      norm == [op |-> ">", c |-> c3, d |-> d0] \* to become the negation of the last literal
      mk(e) == LET d == RAdd(d0, e) o == Sgn([neg |-> h[1], op |-> h[2]]) IN
               IF o \in {"<", "<="} THEN Lit(h[1], h[2], RNeg(c3[1]), RNeg(c3[2]), RNeg(d)) ELSE Lit(h[1], h[2], c3[1], c3[2], d)
      steps == IF Mode = "int" THEN {I2R(-2), I2R(-1), Zero, One} ELSE {I2R(-1), <<-1, 2>>, Zero, <<1, 2>>}
  IN {mk(e) : e \in steps}
OkLit(l) == (Mode # "int" \/ (l.c[1][2] = 1 /\ l.c[2][2] = 1 /\ l.d[2] = 1)) /\ \A z \in {l.c[1], l.c[2], l.d} : 12 % z[2] = 0
\* the clause is false under the values z of the two variables (text agrees: checked below at two valuations)
LitV(l, z) == LET x == RAdd(RMul(l.c[1], z[1]), RMul(l.c[2], z[2])) h == CASE l.op = "<" -> RLt(x, l.d) [] l.op = "<=" -> RLe(x, l.d) [] l.op = ">" -> RLt(l.d, x) [] l.op = ">=" -> RLe(l.d, x) [] OTHER -> x = l.d
              IN h # l.neg
Ints == {I2R(k) : k \in -4..4}
Reals == IF Fam = "three" THEN {Rat(k, 2) : k \in -5..5} ELSE {Rat(k, 8) : k \in -12..12}
VarDom(ls, k) == IF \A m \in 1..Len(ls) : ls[m].c[k] = Zero THEN {Zero} ELSE IF Integral(k) THEN Ints ELSE Reals
RefV(ls) == \E x \in VarDom(ls, 1) : \E y \in VarDom(ls, 2) : \A k \in 1..Len(ls) : ~LitV(ls[k], <<x, y>>)
Env(x, y) == IF Mode = "int" THEN ("i" :> x) @@ ("j" :> y) ELSE IF Mode = "real" THEN ("u" :> x) @@ ("v" :> y) ELSE ("i" :> x) @@ ("u" :> y)
Agree(ls, cl) == \A z \in {<<I2R(-1), I2R(2)>>, <<I2R(1), Zero>>} : \A k \in 1..Len(ls) : LitV(ls[k], z) = (EvA(cl[k], Env(z[1], z[2])) = 1)
Init == st = [ph |-> 0, ls |-> <<>>, co |-> <<>>, s |-> 0]
Next ==
  \/ /\ st.ph = 0
     /\ \E l \in (CASE Fam = "one" -> UniC [] Fam = "two" -> Uni [] OTHER -> RandomSubset(Some, Bi)) : st' = [ph |-> 1, ls |-> <<l>>, co |-> <<>>, s |-> 0]
  \/ /\ Fam = "one" /\ st.ph = 1
     /\ \E co \in Cos1 : st' = MkS(st.ls, <<co>>)
  \/ /\ Fam = "two" /\ st.ph = 1
     /\ LET l1 == st.ls[1] IN \E l2 \in RandomSubset(IF K = 0 THEN 40 ELSE 120, Uni) : \E co \in {One, <<1, 2>>} :
          \E c2 \in {CoefFor(l1, l2, co), RNeg(CoefFor(l1, l2, co)), One} : st' = MkS(<<l1, l2>>, <<co, c2>>)
  \/ /\ Fam = "three" /\ st.ph = 1
     /\ LET l1 == st.ls[1] IN \E l2 \in RandomSubset(Some, Bi) : \E co \in {<<One, One>>, <<<<1, 2>>, I2R(2)>>, <<I2R(3), I2R(-1)>>} :
          \E a3 \in {One, I2R(2)} : \E h \in RandomSubset(4, Shapes) : \E l3 \in LastLits(<<l1, l2>>, co, a3, h) :
            OkLit(l3) /\ st' = MkS(<<l1, l2, l3>>, co \o <<a3>>)
Emit ==
  IF st.ph = 1 THEN TRUE ELSE IF st.ph = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE
  LET cl == [k \in 1..Len(st.ls) |-> Text(st.ls[k], st.s + 5 * k)]
      far == Farkas(st.ls, st.co) ref == RefV(st.ls)
      Row(class) == PrintT("CASE\t" \o class \o "\tla_generic\t\t" \o Cl(cl) \o "\t" \o Join([k \in 1..Len(st.co) |-> CoefS(IF st.ls[k].op = "=" /\ (st.s + 5 * k) % 6 \in {1, 5} THEN RNeg(st.co[k]) ELSE st.co[k], st.s + k)], " ") \o "\t0")
  IN /\ Assert(Agree(st.ls, cl), <<"text differs", Cl(cl)>>)
     /\ Assert(~(far /\ ref), <<"refuted although contradictory", Cl(cl)>>)
     /\ (far => Row("ok")) /\ (ref => Row("bad"))
=============================================================================
