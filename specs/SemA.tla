-------------------------------- MODULE SemA --------------------------------
(* SMT-LIB semantics of Booleans, integers, rationals and bit-vectors. Values: Booleans 0/1, numbers
   <<num, den>> in lowest terms with den > 0, bit-vectors 0..2^w-1 (the width comes from the term).
   V is a valuation of the variables. Division and remainder by zero of integers and rationals are
   uninterpreted in SMT-LIB: V["/0"] gives the value the valuation picks for them. *)
EXTENDS Terms

RECURSIVE Gcd(_, _)
Gcd(m, n) == IF n = 0 THEN m ELSE Gcd(n, m % n)
AbsI(n) == IF n < 0 THEN -n ELSE n
Rat(n, d) == LET g == Gcd(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1
             IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
I2R(n) == <<n, 1>>
RAdd(x, y) == IF x[2] = 1 /\ y[2] = 1 THEN <<x[1] + y[1], 1>> ELSE Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(x) == <<-x[1], x[2]>>
RMul(x, y) == IF x[2] = 1 /\ y[2] = 1 THEN <<x[1] * y[1], 1>> ELSE Rat(x[1] * y[1], x[2] * y[2])
RInv(x) == Rat(x[2], x[1])
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RLt(x, y) == x[1] * y[2] < y[1] * x[2]
Floor(x) == x[1] \div x[2]
\* Euclidean division (remainder in 0..|n|-1); TLA+ \div floors
DivE(m, n) == IF n > 0 THEN m \div n ELSE -(m \div (-n))
ModE(m, n) == m - n * DivE(m, n)

P2(n) == 2 ^ n
Bit(v, k) == (v \div P2(k)) % 2
Msb(v, w) == Bit(v, w - 1)
SignedV(v, w) == IF Msb(v, w) = 1 THEN v - P2(w) ELSE v
ModW(v, w) == v % P2(w)
RECURSIVE BitFold(_, _, _, _)
BitFold(Op(_, _), x, y, w) == IF w = 0 THEN 0 ELSE BitFold(Op, x, y, w - 1) + P2(w - 1) * Op(Bit(x, w - 1), Bit(y, w - 1))
OpAnd(x, y) == x * y
OpOr(x, y) == IF x + y > 0 THEN 1 ELSE 0
OpXor(x, y) == (x + y) % 2
BvAnd(x, y, w) == BitFold(OpAnd, x, y, w)
BvOr(x, y, w) == BitFold(OpOr, x, y, w)
BvXor(x, y, w) == BitFold(OpXor, x, y, w)
BvNot(x, w) == P2(w) - 1 - x
BvNeg(x, w) == ModW(-x, w)
UDiv(x, y, w) == IF y = 0 THEN P2(w) - 1 ELSE x \div y
URem(x, y) == IF y = 0 THEN x ELSE x % y
SDiv(x, y, w) == LET mx == Msb(x, w) my == Msb(y, w) IN
  CASE mx = 0 /\ my = 0 -> UDiv(x, y, w)
    [] mx = 1 /\ my = 0 -> BvNeg(UDiv(BvNeg(x, w), y, w), w)
    [] mx = 0 /\ my = 1 -> BvNeg(UDiv(x, BvNeg(y, w), w), w)
    [] OTHER -> UDiv(BvNeg(x, w), BvNeg(y, w), w)
SRem(x, y, w) == LET mx == Msb(x, w) my == Msb(y, w) IN
  CASE mx = 0 /\ my = 0 -> URem(x, y)
    [] mx = 1 /\ my = 0 -> BvNeg(URem(BvNeg(x, w), y), w)
    [] mx = 0 /\ my = 1 -> URem(x, BvNeg(y, w))
    [] OTHER -> BvNeg(URem(BvNeg(x, w), BvNeg(y, w)), w)
SMod(x, y, w) ==
  LET mx == Msb(x, w) my == Msb(y, w)
      ax == IF mx = 0 THEN x ELSE BvNeg(x, w)
      ay == IF my = 0 THEN y ELSE BvNeg(y, w)
      u == URem(ax, ay)
  IN CASE u = 0 -> u
       [] mx = 0 /\ my = 0 -> u
       [] mx = 1 /\ my = 0 -> ModW(BvNeg(u, w) + y, w)
       [] mx = 0 /\ my = 1 -> ModW(u + y, w)
       [] OTHER -> BvNeg(u, w)
Shl(x, y, w) == IF y >= w THEN 0 ELSE ModW(x * P2(y), w)
LShr(x, y, w) == IF y >= w THEN 0 ELSE x \div P2(y)
AShr(x, y, w) == LET s == SignedV(x, w) IN ModW(s \div P2(IF y >= w THEN w ELSE y), w)
RotL(x, n, w) == LET k == n % w IN ModW(x * P2(k), w) + (x \div P2(w - k))
RECURSIVE Rep(_, _, _)
Rep(x, n, w) == IF n = 0 THEN 0 ELSE Rep(x, n - 1, w) * P2(w) + x

RECURSIVE WidthOf(_)
WidthOf(t) ==
  CASE t.o = "#bv" -> t.w
    [] t.a = <<>> -> t.w
    [] t.o = "concat" -> FoldSeq(LAMBDA x, y : WidthOf(x) + y, 0, t.a)
    [] t.o = "extract" -> t.n - t.w + 1
    [] t.o \in {"zero_extend", "sign_extend"} -> t.n + WidthOf(t.a[1])
    [] t.o = "repeat" -> t.n * WidthOf(t.a[1])
    [] t.o = "bvcomp" -> 1
    [] t.o \in {"@bbterm", "@pbbterm"} -> Len(t.a)
    [] t.o = "int_to_bv" -> t.n
    [] t.o = "@bv" -> t.a[2].n
    [] t.o = "ite" -> WidthOf(t.a[2])
    [] OTHER -> WidthOf(t.a[1])

BI(x) == IF x THEN 1 ELSE 0
RECURSIVE EvA(_, _)
EvA(t, V) ==
  LET A(k) == EvA(t.a[k], V)
      n == Len(t.a)
      w == WidthOf(t)
      w1 == WidthOf(t.a[1])
      fold(F(_, _)) == FoldLeft(LAMBDA acc, x : F(acc, EvA(x, V)), A(1), Tail(t.a))
      chain(F(_, _)) == BI(\A k \in 1..(n - 1) : F(A(k), A(k + 1)))
  IN CASE t.o = "true" -> 1
       [] t.o = "false" -> 0
       [] t.o = "not" -> 1 - A(1)
       [] t.o = "and" -> BI(\A k \in 1..n : A(k) = 1)
       [] t.o = "or" -> BI(\E k \in 1..n : A(k) = 1)
       [] t.o = "xor" -> fold(LAMBDA x, y : (x + y) % 2)
       [] t.o = "=>" -> BI(A(n) = 1 \/ \E k \in 1..(n - 1) : A(k) = 0)
       [] t.o = "=" -> chain(LAMBDA x, y : x = y)
       [] t.o = "distinct" -> BI(\A k \in 1..n : \A l \in (k + 1)..n : A(k) # A(l))
       [] t.o = "ite" -> IF A(1) = 1 THEN A(2) ELSE A(3)
       [] t.o \in {"#int", "#lit"} -> <<t.n, 1>>
       [] t.o = "#real" -> Rat(t.n, t.w)
       [] t.o = "#bv" -> ModW(t.n, t.w)
       [] t.o = "+" -> fold(RAdd)
       [] t.o = "*" -> fold(RMul)
       [] t.o = "-" -> IF n = 1 THEN RNeg(A(1)) ELSE fold(LAMBDA x, y : RAdd(x, RNeg(y)))
       [] t.o = "/" -> fold(LAMBDA x, y : IF y[1] = 0 THEN <<V["/0"], 1>> ELSE RMul(x, RInv(y)))
       [] t.o = "div" -> fold(LAMBDA x, y : IF y[1] = 0 THEN <<V["/0"], 1>> ELSE <<DivE(x[1], y[1]), 1>>)
       [] t.o = "mod" -> IF A(2)[1] = 0 THEN <<V["/0"], 1>> ELSE <<ModE(A(1)[1], A(2)[1]), 1>>
       [] t.o = "abs" -> <<AbsI(A(1)[1]), A(1)[2]>>
       [] t.o = "to_real" -> A(1)
       [] t.o = "to_int" -> <<Floor(A(1)), 1>>
       [] t.o = "is_int" -> BI(A(1)[2] = 1)
       [] t.o = "<" -> chain(RLt)
       [] t.o = "<=" -> chain(RLe)
       [] t.o = ">" -> chain(LAMBDA x, y : RLt(y, x))
       [] t.o = ">=" -> chain(LAMBDA x, y : RLe(y, x))
       [] t.o = "bvnot" -> BvNot(A(1), w)
       [] t.o = "bvneg" -> BvNeg(A(1), w)
       [] t.o = "bvand" -> fold(LAMBDA x, y : BvAnd(x, y, w))
       [] t.o = "bvor" -> fold(LAMBDA x, y : BvOr(x, y, w))
       [] t.o = "bvxor" -> fold(LAMBDA x, y : BvXor(x, y, w))
       [] t.o = "bvnand" -> BvNot(BvAnd(A(1), A(2), w), w)
       [] t.o = "bvnor" -> BvNot(BvOr(A(1), A(2), w), w)
       [] t.o = "bvxnor" -> BvNot(BvXor(A(1), A(2), w), w)
       [] t.o = "bvadd" -> fold(LAMBDA x, y : ModW(x + y, w))
       [] t.o = "bvmul" -> fold(LAMBDA x, y : ModW(x * y, w))
       [] t.o = "bvsub" -> ModW(A(1) - A(2), w)
       [] t.o = "bvudiv" -> UDiv(A(1), A(2), w)
       [] t.o = "bvurem" -> URem(A(1), A(2))
       [] t.o = "bvsdiv" -> SDiv(A(1), A(2), w)
       [] t.o = "bvsrem" -> SRem(A(1), A(2), w)
       [] t.o = "bvsmod" -> SMod(A(1), A(2), w)
       [] t.o = "bvshl" -> Shl(A(1), A(2), w)
       [] t.o = "bvlshr" -> LShr(A(1), A(2), w)
       [] t.o = "bvashr" -> AShr(A(1), A(2), w)
       [] t.o = "bvult" -> BI(A(1) < A(2))
       [] t.o = "bvule" -> BI(A(1) <= A(2))
       [] t.o = "bvugt" -> BI(A(1) > A(2))
       [] t.o = "bvuge" -> BI(A(1) >= A(2))
       [] t.o = "bvslt" -> BI(SignedV(A(1), w1) < SignedV(A(2), w1))
       [] t.o = "bvsle" -> BI(SignedV(A(1), w1) <= SignedV(A(2), w1))
       [] t.o = "bvsgt" -> BI(SignedV(A(1), w1) > SignedV(A(2), w1))
       [] t.o = "bvsge" -> BI(SignedV(A(1), w1) >= SignedV(A(2), w1))
       [] t.o = "bvcomp" -> BI(A(1) = A(2))
       [] t.o = "concat" -> FoldLeft(LAMBDA acc, x : acc * P2(WidthOf(x)) + EvA(x, V), 0, t.a)
       [] t.o = "extract" -> (A(1) \div P2(t.w)) % P2(t.n - t.w + 1)
       [] t.o = "zero_extend" -> A(1)
       [] t.o = "sign_extend" -> ModW(SignedV(A(1), w1), w)
       [] t.o = "rotate_left" -> RotL(A(1), t.n, w)
       [] t.o = "rotate_right" -> RotL(A(1), w - (t.n % w), w)
       [] t.o = "repeat" -> Rep(A(1), t.n, w1)
       [] t.o = "ubv_to_int" -> <<A(1), 1>>
       [] t.o = "sbv_to_int" -> <<SignedV(A(1), w1), 1>>
       [] t.o = "int_to_bv" -> ModW(A(1)[1], w)
       [] t.o = "@bvsize" -> <<w1, 1>>
       [] t.o = "@bit_of" -> Bit(A(1), t.n)
       [] t.o = "@int_of" -> <<Bit(A(1), t.n), 1>>
       [] t.o = "@bbterm" -> FoldLeft(LAMBDA acc, k : acc + P2(k - 1) * A(k), 0, [k \in 1..n |-> k])
       [] t.o = "@pbbterm" -> FoldLeft(LAMBDA acc, k : acc + P2(k - 1) * BI(A(k) = <<1, 1>>), 0, [k \in 1..n |-> k])
       [] t.o = "@bv" -> ModW(A(1)[1], w)
       \* extensions of cvc5: powers of two, 0 where the argument has none
       [] t.o = "int.pow2" -> IF A(1)[1] < 0 THEN <<0, 1>> ELSE <<P2(A(1)[1]), 1>>
       [] t.o = "int.log2" -> <<CHOOSE x \in 0..31 : IF A(1)[1] <= 0 THEN x = 0 ELSE P2(x) <= A(1)[1] /\ A(1)[1] \div 2 < P2(x), 1>>
       [] t.o = "int.ispow2" -> BI(\E x \in 0..30 : A(1)[1] = P2(x))
       \* choice over a small integer: V["ch"] says which of the candidates the model picks
       [] t.o = "choice" -> LET D == -2..3
                                S0 == {z \in D : EvA(t.a[2], (t.a[1].o :> <<z, 1>>) @@ V) = 1}
                                S1 == IF S0 = {} THEN D ELSE S0
                            IN <<CHOOSE z \in S1 : \A y \in S1 : IF V["ch"] = 0 THEN z <= y ELSE z >= y, 1>>
       [] t.a = <<>> -> V[t.o]
HoldsA(c, V) == \E k \in 1..Len(c) : EvA(c[k], V) = 1

\* leaves of a term that are variables
RECURSIVE VarsA(_)
VarsA(t) == IF t.a = <<>> THEN (IF t.o \in {"true", "false", "#int", "#lit", "#real", "#bv"} THEN {} ELSE {t})
            ELSE IF t.o = "choice" THEN {x \in VarsA(t.a[2]) : x.o # t.a[1].o}
            ELSE UNION {VarsA(t.a[k]) : k \in 1..Len(t.a)}
VarsOfC(prem, c) == UNION ({VarsA(c[k]) : k \in 1..Len(c)} \cup UNION {{VarsA(prem[m][k]) : k \in 1..Len(prem[m])} : m \in 1..Len(prem)})
RECURSIVE HasAny(_, _)
HasAny(t, ops) == t.o \in ops \/ \E k \in 1..Len(t.a) : HasAny(t.a[k], ops)

\* valuations: Doms maps a sort name to the set of values tried; bit-vector variables take all values
DomA(x, Doms) == IF x.w > 0 THEN 0..(P2(x.w) - 1) ELSE IF Sig[x.o] = "Bool" THEN {0, 1} ELSE Doms[Sig[x.o]]
Valuations(vars, Doms, zs) ==
  LET names == {x.o : x \in vars}
      dom(o) == DomA(CHOOSE x \in vars : x.o = o, Doms)
      Sets == {dom(o) : o \in names}
      RECURSIVE Build(_)
      Build(ns) == IF ns = {} THEN {("/0" :> z) : z \in zs}
                   ELSE LET o == CHOOSE z \in ns : TRUE IN
                        UNION {{fn @@ (o :> v) : v \in dom(o)} : fn \in Build(ns \ {o})}
  IN Build(names)
RefutedA(prem, c, Doms) ==
  LET zs == IF \E k \in 1..Len(c) : HasAny(c[k], {"/", "div", "mod"}) THEN {-1, 0, 2} ELSE {0}
  IN \E V \in Valuations(VarsOfC(prem, c), Doms, zs) :
       (\A k \in 1..Len(prem) : HoldsA(prem[k], V)) /\ ~HoldsA(c, V)
=============================================================================
