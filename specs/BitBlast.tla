------------------------------ MODULE BitBlast ------------------------------
(* C17: the documented circuits of the bitblast rules, as terms, for bit-vectors of width W. Each circuit
   must mean the same as the operator it replaces (checked here), and its equation is a documented
   instance. Edited equations, and the equations of an operator with the circuit of another one, must
   be rejected when they differ for some value. Widths above 3 are evaluated for sampled values. *)
EXTENDS SemA
CONSTANTS W, MaxEdits, Part, Parts, MW    \* MW: up to which width multiplication is covered
VARIABLE st

A == BVx("A", W) B == BVx("B", W) C == BVx("C", W) D == BVx("D", 2)
DeclB == "(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun r () Bool)" \o
         Join([k \in 1..3 |-> "(declare-fun " \o <<"A", "B", "C">>[k] \o " () (_ BitVec " \o ToString(W) \o "))"], "") \o "(declare-fun D () (_ BitVec 2))"
p == L("p") q == L("q") r == L("r")

BB(bits) == T("@bbterm", bits)
Bits(t) == IF t.o = "@bbterm" THEN t.a ELSE [k \in 1..WidthOf(t) |-> Ix("@bit_of", k - 1, 0, <<t>>)]
Map2(F(_, _), x, y) == BB([k \in 1..Len(Bits(x)) |-> F(Bits(x)[k], Bits(y)[k])])
RECURSIVE Left(_, _)
Left(F(_, _), ts) == IF Len(ts) = 1 THEN ts[1] ELSE F(Left(F, SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)])
And2(x, y) == And(<<x, y>>)
Or2(x, y) == Or(<<x, y>>)
\* ripple-carry adder: carry 1 is the incoming one
RECURSIVE Carry(_, _, _, _)
Carry(x, y, c0, k) == IF k = 1 THEN c0 ELSE Or2(And2(x[k - 1], y[k - 1]), And2(Xor(x[k - 1], y[k - 1]), Carry(x, y, c0, k - 1)))
AddC(x, y, c0) == BB([k \in 1..Len(x) |-> Xor(Xor(x[k], y[k]), Carry(x, y, c0, k))])
AddB(x, y) == AddC(Bits(x), Bits(y), FF)
NegB(x) == LET z == Bits(x) IN AddC([k \in 1..Len(z) |-> Not(z[k])], [k \in 1..Len(z) |-> FF], TT)
\* shift-add multiplier: row j adds x shifted by j (if bit j of y) to the sum of the rows before it
Sh(x, y, j, k) == IF j <= k THEN And2(y[j], x[k - j + 1]) ELSE FF
RECURSIVE MRes(_, _, _, _), MCar(_, _, _, _)
MCar(x, y, j, k) == IF k <= j THEN FF ELSE Or2(And2(MRes(x, y, j - 1, k - 1), Sh(x, y, j, k - 1)), And2(Xor(MRes(x, y, j - 1, k - 1), Sh(x, y, j, k - 1)), MCar(x, y, j, k - 1)))
MRes(x, y, j, k) == IF j = 1 \/ k = 1 THEN Sh(x, y, 1, k) ELSE IF j > k THEN MRes(x, y, k, k) ELSE Xor(Xor(MRes(x, y, j - 1, k), Sh(x, y, j, k)), MCar(x, y, j, k))
MulB(x, y) == BB([k \in 1..Len(Bits(x)) |-> MRes(Bits(x), Bits(y), Len(Bits(x)), k)])
\* comparisons, from the least significant bit up
RECURSIVE UltB(_, _, _)
UltB(x, y, k) == IF k = 1 THEN And2(Not(x[1]), y[1]) ELSE Or2(And2(Eq(x[k], y[k]), UltB(x, y, k - 1)), And2(Not(x[k]), y[k]))
SltB(x, y, k) == IF k = 1 THEN And2(x[1], Not(y[1])) ELSE Or2(And2(Eq(x[k], y[k]), UltB(x, y, k - 1)), And2(x[k], Not(y[k])))
EqB(x, y) == LET z == [k \in 1..Len(x) |-> Eq(x[k], y[k])] IN IF Len(z) = 1 THEN z[1] ELSE And(z)
BvVal(t) == BB([k \in 1..t.w |-> IF Bit(t.n, k - 1) = 1 THEN TT ELSE FF])

\* the rule and the circuit of a term
Circ(t) ==
  CASE t.o = "#bv" -> <<"bitblast_const", BvVal(t)>>
    [] t.a = <<>> -> <<"bitblast_var", BB(Bits(t))>>
    [] t.o = "bvand" -> <<"bitblast_and", Left(LAMBDA x, y : Map2(And2, x, y), t.a)>>
    [] t.o = "bvor" -> <<"bitblast_or", Left(LAMBDA x, y : Map2(Or2, x, y), t.a)>>
    [] t.o = "bvxor" -> <<"bitblast_xor", Left(LAMBDA x, y : Map2(Xor, x, y), t.a)>>
    [] t.o = "bvxnor" -> <<"bitblast_xnor", Map2(Eq, t.a[1], t.a[2])>>
    [] t.o = "bvnot" -> <<"bitblast_not", BB([k \in 1..Len(Bits(t.a[1])) |-> Not(Bits(t.a[1])[k])])>>
    [] t.o = "bvadd" -> <<"bitblast_add", Left(AddB, t.a)>>
    [] t.o = "bvmul" -> <<"bitblast_mult", Left(MulB, t.a)>>
    [] t.o = "bvneg" -> <<"bitblast_neg", NegB(t.a[1])>>
    [] t.o = "bvult" -> <<"bitblast_ult", UltB(Bits(t.a[1]), Bits(t.a[2]), Len(Bits(t.a[1])))>>
    [] t.o = "bvslt" -> <<"bitblast_slt", SltB(Bits(t.a[1]), Bits(t.a[2]), Len(Bits(t.a[1])))>>
    [] t.o = "=" -> <<"bitblast_equal", EqB(Bits(t.a[1]), Bits(t.a[2]))>>
    [] t.o = "bvcomp" -> <<"bitblast_comp", BB(<<EqB(Bits(t.a[1]), Bits(t.a[2]))>>)>>
    [] t.o = "extract" -> <<"bitblast_extract", BB(SubSeq(Bits(t.a[1]), t.w + 1, t.n + 1))>>
    [] t.o = "concat" -> <<"bitblast_concat", BB(FlattenSeq([k \in 1..Len(t.a) |-> Bits(t.a[Len(t.a) + 1 - k])]))>>
    [] t.o = "sign_extend" -> <<"bitblast_sign_extend", IF t.n = 0 THEN t.a[1] ELSE LET z == Bits(t.a[1]) IN BB(z \o [k \in 1..t.n |-> z[Len(z)]])>>

Fm == <<p, Not(q), And(<<p, r>>), TT, q, FF, r, Xor(p, q)>>
X1 == BB([k \in 1..W |-> Fm[((k - 1) % 8) + 1]])
X2 == BB([k \in 1..W |-> Fm[((k + 2) % 8) + 1]])
K == BVc(P2(W) - 1 - (IF W > 1 THEN 2 ELSE 0), W)
BinOps == {"bvand", "bvor", "bvxor", "bvxnor", "bvadd", "bvult", "bvslt", "=", "bvcomp"} \cup (IF W <= MW THEN {"bvmul"} ELSE {})
UnOps == {"bvnot", "bvneg"}
Pairs == {<<A, B>>, <<A, A>>, <<X1, B>>, <<A, X2>>, <<X1, X2>>, <<A, K>>, <<T("bvnot", <<A>>), B>>}
Singles == {A, X1, T("bvadd", <<A, B>>), K}
Terms1 == {T(o, z) : o \in BinOps, z \in Pairs} \cup {T(o, <<z>>) : o \in UnOps, z \in Singles}
  \cup {T(o, <<A, B, C>>) : o \in {"bvand", "bvor", "bvxor"} \cup (IF W <= 3 THEN {"bvadd"} ELSE {})} \cup (IF W <= 2 THEN {T("bvmul", <<A, B, C>>)} ELSE {})
  \cup {T("bvand", <<X1, B, X2, A>>), T("bvor", <<A, X1, B>>)}
  \cup {Ix("extract", m[1], m[2], <<z>>) : m \in {x \in (0..(W - 1)) \X (0..(W - 1)) : x[2] <= x[1]}, z \in {A, X1, T("bvadd", <<A, B>>)}}
  \cup {T("concat", z) : z \in {<<A, B>>, <<A, X2>>, <<X1, A>>, <<A, B, C>>, <<A, D>>, <<D, X1, A>>, <<BVc(1, 2), A>>}}
  \cup {Ix("sign_extend", n, 0, <<z>>) : n \in {0, 1, 2, 5}, z \in {A, X1, K}}
  \cup {A, T("bvadd", <<A, B>>)} \cup {BVc(n, W) : n \in IF W <= 4 THEN 0..(P2(W) - 1) ELSE {0, 1, P2(W - 1), P2(W) - 1, P2(W - 1) + 1}}
Wide(t) == W > 3 /\ t.o = "bvmul"
S(rule, eq) == [r |-> rule, prem |-> <<>>, cl |-> <<eq>>, args |-> <<>>]
Inst(t) == LET z == Circ(t) IN {S(z[1], Eq(t, z[2]))}
  \cup (IF t \in {T("bvadd", <<A, B>>), T("concat", <<A, D>>), Ix("sign_extend", 2, 0, <<A>>)} THEN {S("bitblast_var", Eq(t, BB(Bits(t))))} ELSE {})
Seeds == UNION {Inst(t) : t \in Terms1}
Pool == ("Bool" :> {TT, FF, p}) @@ (("BV" \o ToString(W)) :> {A, B, BVc(0, W)})
\* bit-vector variables: all values up to width 3, otherwise a sample
Sample == {0, 1, 2, P2(W - 1) - 1, P2(W - 1), P2(W) - 2, P2(W) - 1, (2 * P2(W)) \div 3}
DomB(x) == IF x.w = 0 THEN {0, 1} ELSE IF x.w <= 3 THEN 0..(P2(x.w) - 1) ELSE Sample
ValsB(vars) ==
  LET names == {x.o : x \in vars}
      RECURSIVE Build(_)
      Build(ns) == IF ns = {} THEN {("/0" :> 0)}
                   ELSE LET o == CHOOSE z \in ns : TRUE IN
                        UNION {{fn @@ (o :> v) : v \in DomB(CHOOSE x \in vars : x.o = o)} : fn \in Build(ns \ {o})}
  IN Build(names)
RefutedC(prem, c) == \E V \in ValsB(VarsOfC(prem, c)) : (\A k \in 1..Len(prem) : HoldsA(prem[k], V)) /\ ~HoldsA(c, V)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclB
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* each operator with the circuits of all others of its sort
TermSeq == SetToSeq({t \in Terms1 : t.a # <<>>})
Swapped(t) == LET c == SymsC(<<t>>) IN {z \in {Circ(x)[2] : x \in {y \in Terms1 : y.a # <<>> /\ SortOf(y) = SortOf(t) /\ (SymsC(<<y>>) \subseteq c)}} : z # Circ(t)[2]}
XInit == st = 0
XNext == st = 0 /\ st' \in 1..Len(TermSeq)
XRow(class, rule, eq) == PrintT("CASE\t" \o class \o "\t" \o rule \o "\t\t" \o Cl(<<eq>>) \o "\t\t0")
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o DeclB) ELSE
  LET t == TermSeq[st] IN \A z \in Swapped(t) : RefutedC(<<>>, <<Eq(t, z)>>) => XRow("bad", Circ(t)[1], Eq(t, z))
=============================================================================
