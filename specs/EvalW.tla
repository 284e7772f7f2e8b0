------------------------------- MODULE EvalW -------------------------------
(* C21: evaluation of wide bit-vectors. A bit-vector is the sequence of its bits, least significant
   first; every operator is its textbook algorithm on bits, so widths beyond a machine word are within
   reach. On small widths the algorithms agree with the arithmetic definitions of SemA (Agree). *)
EXTENDS SemA
CONSTANTS Widths
VARIABLES w, d
vars == <<w, d>>

ZeroW(n) == [k \in 1..n |-> 0]
OnesW(n) == [k \in 1..n |-> 1]
FromNat(x, n) == [k \in 1..n |-> IF k > 20 THEN 0 ELSE Bit(x, k - 1)]
RECURSIVE ToNat(_)
ToNat(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * ToNat(Tail(b))
WNot(b) == [k \in 1..Len(b) |-> 1 - b[k]]
WAnd(b, c) == [k \in 1..Len(b) |-> b[k] * c[k]]
WOr(b, c) == [k \in 1..Len(b) |-> OpOr(b[k], c[k])]
WXor(b, c) == [k \in 1..Len(b) |-> OpXor(b[k], c[k])]
RECURSIVE Adder(_, _, _)
Adder(b, c, cy) == IF b = <<>> THEN <<>> ELSE LET z == b[1] + c[1] + cy IN <<z % 2>> \o Adder(Tail(b), Tail(c), z \div 2)
WAdd(b, c) == Adder(b, c, 0)
WNeg(b) == Adder(WNot(b), ZeroW(Len(b)), 1)
WSub(b, c) == Adder(b, WNot(c), 1)
Up(b, k) == LET n == Len(b) m == IF k > n THEN n ELSE k IN ZeroW(m) \o SubSeq(b, 1, n - m)
Down(b, k, fillbit) == LET n == Len(b) m == IF k > n THEN n ELSE k IN SubSeq(b, m + 1, n) \o [z \in 1..m |-> fillbit]
RECURSIVE MulFrom(_, _, _, _)
MulFrom(b, c, k, acc) == IF k > Len(c) THEN acc ELSE MulFrom(b, c, k + 1, IF c[k] = 1 THEN WAdd(acc, Up(b, k - 1)) ELSE acc)
WMul(b, c) == MulFrom(b, c, 1, ZeroW(Len(b)))
RECURSIVE LessU(_, _)
LessU(b, c) == IF b = <<>> THEN FALSE ELSE LET n == Len(b) IN IF b[n] # c[n] THEN b[n] < c[n] ELSE LessU(SubSeq(b, 1, n - 1), SubSeq(c, 1, n - 1))
SignB(b) == b[Len(b)]
LessS(b, c) == IF SignB(b) # SignB(c) THEN SignB(b) = 1 ELSE LessU(b, c)
\* long division: <<quotient, remainder>>, one bit at a time from the top; the remainder has one extra bit
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(b, c, k, q, rem) ==
  IF k = 0 THEN <<q, rem>> ELSE
  LET r2 == <<b[k]>> \o SubSeq(rem, 1, Len(rem) - 1) IN
  IF LessU(r2, c) THEN DivFrom(b, c, k - 1, <<0>> \o q, r2) ELSE DivFrom(b, c, k - 1, <<1>> \o q, WSub(r2, c))
DivRem(b, c) == LET n == Len(b) z == DivFrom(b, Append(c, 0), n, <<>>, ZeroW(n + 1)) IN <<z[1], SubSeq(z[2], 1, n)>>
IsZ(b) == b = ZeroW(Len(b))
WUDiv(b, c) == IF IsZ(c) THEN OnesW(Len(b)) ELSE DivRem(b, c)[1]
WURem(b, c) == IF IsZ(c) THEN b ELSE DivRem(b, c)[2]
WAbs(b) == IF SignB(b) = 1 THEN WNeg(b) ELSE b
WSDiv(b, c) == LET q == WUDiv(WAbs(b), WAbs(c)) IN IF SignB(b) # SignB(c) THEN WNeg(q) ELSE q
WSRem(b, c) == LET z == WURem(WAbs(b), WAbs(c)) IN IF SignB(b) = 1 THEN WNeg(z) ELSE z
WSMod(b, c) == LET z == WURem(WAbs(b), WAbs(c)) IN
  IF IsZ(z) THEN z ELSE IF SignB(b) = 0 /\ SignB(c) = 0 THEN z ELSE IF SignB(b) = 1 /\ SignB(c) = 0 THEN WAdd(WNeg(z), c)
  ELSE IF SignB(b) = 0 THEN WAdd(z, c) ELSE WNeg(z)
\* a shift amount: the width if it is at least the width
Amt(c) == LET hi == {k \in 1..Len(c) : c[k] = 1 /\ k > 12} IN IF hi # {} THEN Len(c) ELSE LET z == ToNat(SubSeq(c, 1, IF Len(c) > 12 THEN 12 ELSE Len(c))) IN IF z > Len(c) THEN Len(c) ELSE z
WShl(b, c) == Up(b, Amt(c))
WLShr(b, c) == Down(b, Amt(c), 0)
WAShr(b, c) == Down(b, Amt(c), SignB(b))
WRotL(b, k) == LET n == Len(b) m == k % n IN SubSeq(b, n - m + 1, n) \o SubSeq(b, 1, n - m)
\* decimal digits of a bit-vector, least significant first
RECURSIVE Dbl(_, _)
Dbl(ds, cy) == IF ds = <<>> THEN (IF cy = 0 THEN <<>> ELSE <<cy>>) ELSE LET z == 2 * ds[1] + cy IN <<z % 10>> \o Dbl(Tail(ds), z \div 10)
RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN <<>> ELSE Dbl(Dec(Tail(b)), b[1])
RECURSIVE Digits(_)
Digits(ds) == IF ds = <<>> THEN "" ELSE Digits(Tail(ds)) \o ToString(ds[1])
DecS(b) == LET ds == Dec(b) IN IF ds = <<>> THEN "0" ELSE Digits(ds)
SDecS(b) == IF SignB(b) = 1 THEN "-" \o DecS(WNeg(b)) ELSE DecS(b)
RECURSIVE BinD(_)
BinD(b) == IF b = <<>> THEN "" ELSE BinD(Tail(b)) \o ToString(b[1])
BinS(b) == "#b" \o BinD(b)
------------------------------------------------------------------------------
Pats(n) ==
  {ZeroW(n), OnesW(n), FromNat(1, n), FromNat(2, n), [k \in 1..n |-> IF k = n THEN 1 ELSE 0], [k \in 1..n |-> IF k = n THEN 0 ELSE 1],
   [k \in 1..n |-> k % 2], [k \in 1..n |-> IF k % 3 = 0 THEN 1 ELSE 0], [k \in 1..n |-> IF k = 1 \/ k = n THEN 1 ELSE 0], [k \in 1..n |-> IF k > n \div 2 THEN 1 ELSE 0]}
  \cup (IF n < 20 THEN {} ELSE {FromNat(n, n), FromNat(n - 1, n), [k \in 1..n |-> IF k = 33 THEN 1 ELSE 0]})
Few(n) == {ZeroW(n), OnesW(n), [k \in 1..n |-> IF k = n THEN 1 ELSE 0], [k \in 1..n |-> k % 2], [k \in 1..n |-> IF k % 3 = 0 THEN 1 ELSE 0]}
Bools == {"bvult", "bvule", "bvslt", "bvsge", "=", "bvugt", "bvuge", "bvsle", "bvsgt"}
Ops2 == {"bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr"} \cup Bools
B1(x) == <<IF x THEN 1 ELSE 0>>
Ev2(op, b, c) ==
  CASE op = "bvand" -> WAnd(b, c) [] op = "bvor" -> WOr(b, c) [] op = "bvxor" -> WXor(b, c) [] op = "bvnand" -> WNot(WAnd(b, c)) [] op = "bvnor" -> WNot(WOr(b, c)) [] op = "bvxnor" -> WNot(WXor(b, c))
    [] op = "bvadd" -> WAdd(b, c) [] op = "bvsub" -> WSub(b, c) [] op = "bvmul" -> WMul(b, c)
    [] op = "bvudiv" -> WUDiv(b, c) [] op = "bvurem" -> WURem(b, c) [] op = "bvsdiv" -> WSDiv(b, c) [] op = "bvsrem" -> WSRem(b, c) [] op = "bvsmod" -> WSMod(b, c)
    [] op = "bvshl" -> WShl(b, c) [] op = "bvlshr" -> WLShr(b, c) [] op = "bvashr" -> WAShr(b, c)
    [] op = "bvult" -> B1(LessU(b, c)) [] op = "bvule" -> B1(~LessU(c, b)) [] op = "bvugt" -> B1(LessU(c, b)) [] op = "bvuge" -> B1(~LessU(b, c))
    [] op = "bvslt" -> B1(LessS(b, c)) [] op = "bvsle" -> B1(~LessS(c, b)) [] op = "bvsgt" -> B1(LessS(c, b)) [] op = "bvsge" -> B1(~LessS(b, c)) [] op = "=" -> B1(b = c)
Val(op, z) == IF op \in Bools THEN (IF z = <<1>> THEN "true" ELSE "false") ELSE BinS(z)
Row(st, x, v) == PrintT("CASE\t" \o st \o "\t" \o x \o "\t" \o v)
Two(op, b, c) ==
  LET z == Ev2(op, b, c) st == IF op \in {"bvsdiv", "bvsrem", "bvsmod"} /\ IsZ(c) THEN "may" ELSE "ok" x == "(" \o op \o " " \o BinS(b) \o " " \o BinS(c) \o ")" IN
  /\ Row(st, x, Val(op, z))
  /\ op \in Bools \/ \A y \in {WNot(z), [z EXCEPT ![Len(z)] = 1 - @], [z EXCEPT ![1] = 1 - @]} : Row("bad", x, BinS(y))
\* through the integers
IntOps == <<<<"+", "bvadd">>, <<"-", "bvsub">>, <<"*", "bvmul">>, <<"div", "bvudiv">>, <<"mod", "bvurem">>>>
Ints(b, c) == \A k \in 1..5 : LET op == IntOps[k] IN (k > 3 /\ IsZ(c)) \/
  LET x == "(" \o op[1] \o " (ubv_to_int " \o BinS(b) \o ") (ubv_to_int " \o BinS(c) \o "))" y == "(" \o op[1] \o " (sbv_to_int " \o BinS(b) \o ") (sbv_to_int " \o BinS(c) \o "))" n == ToString(Len(b)) IN
  /\ Row("ok", "((_ int_to_bv " \o n \o ") " \o x \o ")", BinS(Ev2(op[2], b, c)))
  /\ k > 3 \/ Row("ok", "((_ int_to_bv " \o n \o ") " \o y \o ")", BinS(Ev2(op[2], b, c)))
  /\ k < 4 \/ Row("ok", x, DecS(Ev2(op[2], b, c)))
  /\ Row("ok", "(< (ubv_to_int " \o BinS(b) \o ") (ubv_to_int " \o BinS(c) \o "))", Val("=", B1(LessU(b, c))))
  /\ Row("ok", "(<= (sbv_to_int " \o BinS(b) \o ") (sbv_to_int " \o BinS(c) \o "))", Val("=", B1(~LessS(c, b))))
Ix1(op, k, b) == "((_ " \o op \o " " \o ToString(k) \o ") " \o BinS(b) \o ")"
Cuts(n) == {0, 1, n \div 2, n - 1} \cup (IF n > 33 THEN {31, 32, 33} ELSE {})
One(b) ==
  LET n == Len(b) IN
  /\ Row("ok", "(bvnot " \o BinS(b) \o ")", BinS(WNot(b))) /\ Row("ok", "(bvneg " \o BinS(b) \o ")", BinS(WNeg(b)))
  /\ Row("ok", "(ubv_to_int " \o BinS(b) \o ")", DecS(b)) /\ Row("ok", "(sbv_to_int " \o BinS(b) \o ")", SDecS(b))
  /\ Row("ok", "(- (ubv_to_int " \o BinS(b) \o "))", IF IsZ(b) THEN "0" ELSE "-" \o DecS(b))
  /\ Row("ok", "(abs (sbv_to_int " \o BinS(b) \o "))", DecS(WAbs(b)))
  /\ Row("ok", "((_ int_to_bv " \o ToString(n) \o ") " \o SDecS(b) \o ")", BinS(b)) /\ Row("ok", "((_ int_to_bv " \o ToString(n + 3) \o ") " \o SDecS(b) \o ")", BinS(b \o [k \in 1..3 |-> SignB(b)]))
  /\ Row("ok", "(@bv " \o DecS(b) \o " " \o ToString(n) \o ")", BinS(b))
  /\ Row("ok", "(= (to_real (ubv_to_int " \o BinS(b) \o ")) " \o DecS(b) \o ".0)", "true")
  /\ Row("ok", "(to_int (/ (to_real (ubv_to_int " \o BinS(b) \o ")) 2.0))", DecS(Down(b, 1, 0)))
  /\ \A hi \in Cuts(n) : \A lo \in Cuts(n) : hi < lo \/ Row("ok", "((_ extract " \o ToString(hi) \o " " \o ToString(lo) \o ") " \o BinS(b) \o ")", BinS(SubSeq(b, lo + 1, hi + 1)))
  /\ \A k \in Cuts(n) : /\ Row("ok", Ix1("rotate_left", k, b), BinS(WRotL(b, k))) /\ Row("ok", Ix1("rotate_right", k, b), BinS(WRotL(b, n - k)))
                        /\ Row("ok", Ix1("zero_extend", k, b), BinS(b \o ZeroW(k))) /\ Row("ok", Ix1("sign_extend", k, b), BinS(b \o [z \in 1..k |-> SignB(b)]))
                        /\ Row("ok", Ix1("@bit_of", k, b), Val("=", <<b[k + 1]>>)) /\ Row("ok", Ix1("@int_of", k, b), ToString(b[k + 1]))
  /\ Row("ok", Ix1("repeat", 3, b), BinS(b \o b \o b))
  /\ Row("ok", "(@bbterm " \o Join([k \in 1..n |-> IF b[k] = 1 THEN "true" ELSE "false"], " ") \o ")", BinS(b))
  /\ Row("ok", "(@pbbterm " \o Join([k \in 1..n |-> ToString(b[k])], " ") \o ")", BinS(b))
  /\ Row("ok", "(concat " \o BinS(b) \o " #b01 " \o BinS(b) \o ")", BinS(b \o <<1, 0>> \o b))
\* large numbers, powers of two
Pow(n) == LET b == [k \in 1..(n + 1) |-> IF k = n + 1 THEN 1 ELSE 0] m == [k \in 1..n |-> 1] IN
  /\ Row("ok", "(int.pow2 " \o ToString(n) \o ")", DecS(b)) /\ Row("ok", "(int.log2 " \o DecS(b) \o ")", ToString(n)) /\ Row("ok", "(int.log2 " \o DecS(m) \o ")", ToString(n - 1))
  /\ Row("ok", "(int.ispow2 " \o DecS(b) \o ")", "true") /\ Row(IF n = 1 THEN "may" ELSE "ok", "(int.ispow2 " \o DecS(m) \o ")", "false") /\ Row("ok", "(int.ispow2 -" \o DecS(b) \o ")", "false")
\* SMT-LIB model values of the small algorithms
Init == d = 0 /\ w \in Widths
Next == d < Cardinality(Ops2) + 1 /\ d' = d + 1 /\ w' = w
OpSeq == SetToSeq(Ops2)
Emit == IF d = 0 THEN (\A b \in Pats(w) : One(b)) /\ Pow(w)
        ELSE IF d = Len(OpSeq) + 1 THEN \A b \in Few(w) : \A c \in Few(w) : Ints(b, c)
        ELSE IF OpSeq[d] \in {"bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod"} THEN \A b \in Few(w) : \A c \in Few(w) : Two(OpSeq[d], b, c)
        ELSE \A b \in Pats(w) : \A c \in Pats(w) : Two(OpSeq[d], b, c)
\* the two semantics agree
Both(op, b, c) == LET n == Len(b) z == EvA(T(op, <<BVc(ToNat(b), n), BVc(ToNat(c), n)>>), "/0" :> 0) IN IF op \in Bools THEN <<z>> ELSE FromNat(z, n)
Agree == w > 4 \/ d = 0 \/ d > Len(OpSeq) \/ \A x \in 0..(P2(w) - 1) : \A y \in 0..(P2(w) - 1) :
   Ev2(OpSeq[d], FromNat(x, w), FromNat(y, w)) = Both(OpSeq[d], FromNat(x, w), FromNat(y, w))
=============================================================================
