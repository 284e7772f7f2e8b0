------------------------------- MODULE EvalM -------------------------------
(* C21: constant evaluation. NF(t) is the term in which every application of an interpreted operator
   to literals is replaced by its SMT-LIB value, bottom up, without entering binders and applications
   of uninterpreted functions; an evaluation step may equate t with nothing else. *)
EXTENDS SemA, Randomization
CONSTANTS Fam, MaxW, Depth, Sub
VARIABLES t, d
vars == <<t, d>>
DeclE == Decl \o "(declare-fun A () (_ BitVec 2))(declare-fun B () (_ BitVec 3))"

LitOps == {"true", "false", "#int", "#real", "#bv"}
IsLit(x) == x.a = <<>> /\ x.o \in LitOps
\* the sort of a term; a mixed sum is real
RECURSIVE So(_)
So(x) == IF x.o \in {"+", "-", "*"} /\ (\E k \in 1..Len(x.a) : So(x.a[k]) = "Real") THEN "Real"
         ELSE IF x.o \in {"abs", "-"} THEN So(x.a[1]) ELSE IF x.o = "ite" THEN So(x.a[2]) ELSE IF x.o = "fr" THEN "Real" ELSE IF x.o \in {"A", "B"} THEN "BV" \o ToString(x.w) ELSE SortOf(x)
LitTxt(so, v, w) == CASE so = "Bool" -> IF v = 1 THEN "true" ELSE "false"
                     [] so = "Int" -> ToString(v[1])
                     [] so = "Real" -> ToString(v[1]) \o (IF v[2] = 1 THEN ".0" ELSE "/" \o ToString(v[2]))
                     [] OTHER -> "(_ bv" \o ToString(v) \o " " \o ToString(w) \o ")"
Lit(so, v, w) == CASE so = "Bool" -> IF v = 1 THEN TT ELSE FF
                   [] so = "Int" -> N(v[1]) [] so = "Real" -> R(v[1], v[2]) [] OTHER -> BVc(v, w)
V0 == "/0" :> 0
\* applications whose value SMT-LIB leaves open
Open(x) == \/ x.o \in {"/", "div"} /\ \E k \in 2..Len(x.a) : x.a[k].n = 0
           \/ x.o = "mod" /\ x.a[2].n = 0
\* applications that have a value but may be left alone: division by the zero bit-vector, odd pseudo-Boolean digits
May(x) == \/ x.o \in {"bvsdiv", "bvsrem", "bvsmod"} /\ ModW(x.a[2].n, x.a[2].w) = 0
          \/ x.o = "@pbbterm" /\ \E k \in 1..Len(x.a) : x.a[k].n \notin {0, 1}
Opaque(x) == x.o \in DOMAIN FSig \/ x.o \in Binders \/ x.o = "let"
RECURSIVE NF(_)
NF(x) == IF x.o = "#bv" THEN BVc(ModW(x.n, x.w), x.w)
         ELSE IF x.o = "#real" THEN LET q == Rat(x.n, x.w) IN R(q[1], q[2])
         ELSE IF x.a = <<>> \/ Opaque(x) THEN x
         ELSE LET y == [x EXCEPT !.a = [k \in 1..Len(x.a) |-> NF(x.a[k])]] IN
              IF (\E k \in 1..Len(y.a) : ~IsLit(y.a[k])) \/ Open(y) THEN y ELSE Lit(So(y), EvA(y, V0), WidthOf(y))
RECURSIVE AnyMay(_)
AnyMay(x) == x.a # <<>> /\ ~Opaque(x) /\
   (LET y == [x EXCEPT !.a = [k \in 1..Len(x.a) |-> NF(x.a[k])]] IN
    (\E k \in 1..Len(x.a) : AnyMay(x.a[k])) \/ ((\A k \in 1..Len(y.a) : IsLit(y.a[k])) /\ May(y)))
\* a remainder by a negative number
RECURSIVE NegMod(_)
NegMod(x) == x.a # <<>> /\ ~Opaque(x) /\
   ((\E k \in 1..Len(x.a) : NegMod(x.a[k])) \/ (x.o = "mod" /\ LET y == NF(x.a[1]) z == NF(x.a[2]) IN IsLit(y) /\ IsLit(z) /\ z.n < 0 /\ ModE(y.n, z.n) # 0))
\* text; a literal is printed as one token
RECURSIVE Tx(_)
Tx(x) == LET args == Join([k \in 1..Len(x.a) |-> Tx(x.a[k])], " ") IN
         IF x.a = <<>> THEN (IF IsLit(x) /\ x.o \in {"#int", "#real"} THEN LitTxt(IF x.o = "#int" THEN "Int" ELSE "Real", IF x.o = "#int" THEN <<x.n, 1>> ELSE <<x.n, x.w>>, 0) ELSE Str(x))
         ELSE IF x.o \in Binders \cup {"let"} THEN Str(x)
         ELSE IF x.o \in {"extract"} THEN "((_ extract " \o ToString(x.n) \o " " \o ToString(x.w) \o ") " \o args \o ")"
         ELSE IF x.o \in Indexed1 \cup {"@bit_of", "@int_of", "int_to_bv"} THEN "((_ " \o x.o \o " " \o ToString(x.n) \o ") " \o args \o ")"
         ELSE "(" \o x.o \o " " \o args \o ")"
Wrong(so, v, w) ==
  LET S == CASE so = "Bool" -> {1 - v}
             [] so \in {"Int", "Real"} -> {<<v[1] + v[2], v[2]>>, <<v[1] - v[2], v[2]>>, <<-v[1], v[2]>>} \ {v}
             [] OTHER -> {ModW(v + 1, w), P2(w) - 1 - v, ModW(-v, w)} \ {v}
  IN {LitTxt(so, x, w) : x \in S}
\* open terms: no literal is the value
AnyVals(so, w) == CASE so = "Bool" -> {0, 1} [] so \in {"Int", "Real"} -> {<<0, 1>>, <<1, 1>>, <<-1, 1>>} [] OTHER -> {0, P2(w) - 1}
Doms == [Int |-> {I2R(-1), I2R(0), I2R(2)}, Real |-> {<<-1, 2>>, I2R(0), I2R(2)}]
RECURSIVE Applies(_)
Applies(x) == Opaque(x) \/ \E k \in 1..Len(x.a) : Applies(x.a[k])
Row(x) ==
  LET y == NF(x) so == So(x) w == WidthOf(x)
      st == IF NegMod(x) THEN "negmod" ELSE IF AnyMay(x) THEN "may" ELSE "ok"
      wr == IF IsLit(y) THEN Wrong(so, EvA(y, V0), w)
            ELSE IF Applies(x) THEN {} ELSE {LitTxt(so, v, w) : v \in {z \in AnyVals(so, w) : RefutedA(<<>>, <<Eq(x, Lit(so, z, w))>>, Doms)}}
  IN /\ PrintT("CASE\t" \o st \o "\t" \o Tx(x) \o "\t" \o Tx(y))
     /\ st = "negmod" \/ (st = "may" /\ ~IsLit(y)) \/ \A z \in wr : PrintT("CASE\tbad\t" \o Tx(x) \o "\t" \o z)
------------------------------------------------------------------------------
Ints == {N(-7), N(-3), N(-1), N(0), N(1), N(2), N(5)}
Reals == {R(-7, 2), R(-1, 1), R(0, 1), R(1, 3), R(1, 1), R(2, 1)}
BVs(w) == {BVc(x, w) : x \in 0..(P2(w) - 1)}
Vals(so) == CASE so = "Bool" -> {TT, FF} [] so = "Int" -> Ints [] so = "Real" -> Reals
              [] so = "Int3" -> {N(-3), N(0), N(1), N(2)} [] so = "Real3" -> {R(-1, 1), R(0, 1), R(1, 2)}
              [] so = "Int4" -> {N(-1), N(0), N(1), N(2)} [] so = "Real4" -> {R(-1, 1), R(0, 1), R(1, 2), R(2, 1)}
              [] so = "Digit" -> {N(0), N(1), N(2)} [] OTHER -> BVs(CHOOSE w \in 1..6 : so = "BV" \o ToString(w))
BvName(w) == "BV" \o ToString(w)
Sigs ==
  {<<o, <<"Bool">>>> : o \in {"not"}} \cup {<<o, <<"Bool", "Bool">>>> : o \in {"and", "or", "xor", "=>", "=", "distinct"}}
  \cup {<<o, <<"Bool", "Bool", "Bool">>>> : o \in {"and", "or", "xor", "=>", "=", "ite"}}
  \cup {<<o, <<"Int">>>> : o \in {"-", "abs", "to_real", "int.pow2", "int.log2", "int.ispow2"}}
  \cup {<<o, <<"Real">>>> : o \in {"-", "to_int", "is_int"}}
  \cup {<<o, <<"Int", "Int">>>> : o \in {"+", "-", "*", "div", "mod", "<", "<=", ">", ">=", "=", "distinct"}}
  \cup {<<o, <<"Int3", "Int3", "Int3">>>> : o \in {"+", "-", "*", "div", "<", "<=", ">", ">=", "=", "distinct"}}
  \cup {<<o, <<"Real", "Real">>>> : o \in {"+", "-", "*", "/", "<", "<=", ">", ">=", "=", "distinct"}}
  \cup {<<o, <<"Real3", "Real3", "Real3">>>> : o \in {"+", "-", "*", "/", "<", "<=", ">", ">=", "=", "distinct"}}
  \cup {<<o, <<so, so, so, so>>>> : o \in {"+", "-", "*", "<", ">=", "=", "distinct"}, so \in {"Int4", "Real4"}}
  \cup {<<o, <<"Bool", "Bool", "Bool", "Bool">>>> : o \in {"and", "or", "xor", "=>", "="}}
  \cup {<<o, <<"BV2", "BV2", "BV2", "BV2">>>> : o \in {"bvand", "bvor", "bvxor", "bvadd", "=", "distinct"}}
  \cup {<<"ite", <<"Bool", so, so>>>> : so \in {"Int3", "Real3", "BV1"}}
  \cup {<<"@bbterm", [k \in 1..n |-> "Bool"]>> : n \in 1..3} \cup {<<"@pbbterm", [k \in 1..n |-> "Digit"]>> : n \in 1..3}
  \cup UNION {
       {<<o, <<BvName(w)>>>> : o \in {"bvnot", "bvneg", "ubv_to_int", "sbv_to_int", "@bvsize"}}
       \cup {<<o, <<BvName(w), BvName(w)>>>> : o \in {"bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvadd", "bvmul", "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod",
              "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "bvcomp", "=", "distinct"}}
       \cup (IF w > 2 THEN {} ELSE {<<o, <<BvName(w), BvName(w), BvName(w)>>>> : o \in {"bvand", "bvor", "bvxor", "bvadd", "bvmul", "=", "distinct"}}) : w \in 1..MaxW}
  \cup {<<"concat", <<BvName(w), BvName(x)>>>> : w \in 1..2, x \in 1..2} \cup {<<"concat", <<"BV1", "BV2", "BV1">>>>}
\* mixed integers and reals, with integers as a subsort of the reals
MixSigs == {<<o, <<"Int3", "Real3">>>> : o \in {"+", "-", "*", "/", "<", "<=", ">", ">="}} \cup {<<o, <<"Real3", "Int3">>>> : o \in {"+", "-", "*", "/", "<", "<=", ">", ">="}}
       \cup {<<o, <<"Int3", "Real3", "Int3">>>> : o \in {"+", "-", "*", "<", ">="}}
RECURSIVE Tuples(_)
Tuples(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Vals(ss[1]), y \in Tuples(Tail(ss))}
Ixs(w) == {Ix("extract", hi, lo, <<x>>) : hi \in 0..(w - 1), lo \in 0..(w - 1), x \in BVs(w)}
       \cup {Ix(o, k, 0, <<x>>) : o \in {"zero_extend", "sign_extend", "rotate_left", "rotate_right"}, k \in 0..(2 * w + 1), x \in BVs(w)}
       \cup {Ix("repeat", k, 0, <<x>>) : k \in 1..3, x \in BVs(w)} \cup {Ix("@bit_of", k, 0, <<x>>) : k \in 0..(w - 1), x \in BVs(w)}
       \cup {Ix("@int_of", k, 0, <<x>>) : k \in 0..(w - 1), x \in BVs(w)}
       \cup {Ix("int_to_bv", w, 0, <<x>>) : x \in Ints \cup {N(-8), N(-9), N(8), N(15), N(16), N(-16)}} \cup {T("@bv", <<x, N(w)>>) : x \in Ints}
IxOk(x) == x.o # "extract" \/ x.n >= x.w
OInit == d = 0 /\ t \in (IF Sub THEN MixSigs ELSE Sigs)
OEmit == \A x \in Tuples(t[2]) : Row(T(t[1], x))
IInit == d = 0 /\ t \in UNION {{x \in Ixs(w) : IxOk(x)} : w \in 1..MaxW}
IEmit == Row(t)
------------------------------------------------------------------------------
\* nested terms, some with variables
Leaf(so) == CASE so = "Bool" -> {TT, FF, L("p")} [] so = "Int" -> {N(-2), N(0), N(1), N(3), L("i")} [] so = "Real" -> {R(-1, 1), R(0, 1), R(1, 2), L("u")}
              [] so = "BV1" -> BVs(1) [] so = "BV2" -> BVs(2) \cup {BVx("A", 2)} [] so = "BV3" -> BVs(3) \cup {BVx("B", 3)} [] OTHER -> {}
One(S) == RandomSubset(1, S)
W2(op, x, so) == {T(op, <<x, y>>) : y \in One(Leaf(so))} \cup {T(op, <<y, x>>) : y \in One(Leaf(so))}
WrapN(x) ==
  LET so == So(x) w == WidthOf(x) IN
  CASE so = "Bool" -> {Not(x)} \cup UNION {W2(o, x, "Bool") : o \in {"and", "or", "xor", "=>", "="}} \cup {Ite(x, y, z) : y \in One(Leaf("Int")), z \in One(Leaf("Int"))}
                      \cup {Ite(x, y, z) : y \in One(Leaf("BV2")), z \in One(Leaf("BV2"))} \cup {T("@bbterm", <<x, y>>) : y \in One(Leaf("Bool"))} \cup {All(<<<<"x", "U">>>>, x), T("H", <<x, TT>>)}
    [] so = "Int" -> {T(o, <<x>>) : o \in {"-", "abs", "to_real", "ff", "int.pow2", "int.log2"}} \cup UNION {W2(o, x, "Int") : o \in {"+", "-", "*", "div", "<", "<=", "=", "distinct"}}
                      \cup {T("mod", <<x, y>>) : y \in One({N(0), N(2), N(3), L("i")})} \cup {Ix("int_to_bv", 3, 0, <<x>>), Ix("int_to_bv", 2, 0, <<x>>), T("@bv", <<x, N(2)>>)}
    [] so = "Real" -> {T(o, <<x>>) : o \in {"-", "to_int", "is_int", "fr"}} \cup UNION {W2(o, x, "Real") : o \in {"+", "-", "*", "/", "<", ">=", "="}}
    [] OTHER -> {T(o, <<x>>) : o \in {"bvnot", "bvneg", "ubv_to_int", "sbv_to_int", "@bvsize"}}
                \cup (IF w > 3 THEN {Ix("extract", 2, 1, <<x>>), Ix("extract", w - 1, w - 3, <<x>>)} ELSE
                      UNION {W2(o, x, so) : o \in {"bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvadd", "bvmul", "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr",
                           "bvult", "bvsle", "bvcomp", "=", "bvsge"}} \cup {T("concat", <<x, y>>) : y \in One(Leaf("BV1"))} \cup {Ix(o, 1, 0, <<x>>) : o \in {"zero_extend", "sign_extend", "rotate_left", "rotate_right"}}
                           \cup {Ix("repeat", 2, 0, <<x>>), Ix("@bit_of", 0, 0, <<x>>), Ix("@bit_of", w - 1, 0, <<x>>), Ix("@int_of", w - 1, 0, <<x>>)})
Small(x) == LET y == NF(x) IN IF y.o = "#int" THEN AbsI(y.n) < 40 ELSE IF y.o = "#real" THEN AbsI(y.n) < 100 /\ y.w < 30 ELSE TRUE
HasI(x) == NegMod(x)
NInit == d = 0 /\ t \in UNION {Leaf(so) : so \in {"Bool", "Int", "Real", "BV1", "BV2", "BV3"}}
NNext == d < Depth /\ d' = d + 1 /\ t' \in {y \in WrapN(t) : Small(y)}
NEmit == d = 0 \/ t.o = "forall" \/ Row(t)
------------------------------------------------------------------------------
\* odd texts, well-sorted or not: any verdict, but a verdict
Huge == "99999999999999999999999"
OddNums == {"0", "1", "-1", "4294967295", "4294967296", "18446744073709551616", Huge, "-" \o Huge}
Odd == {"((_ " \o o \o " " \o n \o ") #b01)" : o \in {"zero_extend", "sign_extend", "rotate_left", "rotate_right", "@bit_of", "@int_of"}, n \in OddNums}
       \cup {"((_ repeat " \o n \o ") #b01)" : n \in {"0", "-1", Huge}} \cup {"((_ int_to_bv " \o n \o ") 5)" : n \in OddNums} \cup {"((_ extract " \o n \o " 0) #b01)" : n \in OddNums}
       \cup {"((_ extract " \o n \o " " \o n \o ") #b01)" : n \in OddNums} \cup {"(@bv 1 " \o n \o ")" : n \in OddNums} \cup {"(@bv i (+ 0 " \o n \o "))" : n \in OddNums} \cup {"(@bv (+ 2 3) (- 2 2))", "(@bv 5 (- 2))", "(@bv 5 i)"}
       \cup {"(int.log2 " \o n \o ")" : n \in OddNums} \cup {"(int.ispow2 " \o n \o ")" : n \in OddNums} \cup {"(int.pow2 -" \o Huge \o ")", "(int.pow2 (- 3))"}
       \cup {"(" \o o \o " 1 0)" : o \in {"div", "mod"}} \cup {"(/ 1.0 0.0)", "(/ 1.0 2.0 0.0)", "(div 7 0 2)", "(div 7 2 0)", "(/ 0.0 0.0)", "(div 0 0)", "(bvsdiv #b1 #b0)", "(bvsmod #b1 #b0)", "(bvsrem #b1 #b0)", "(bvudiv #b1 #b0)"}
OdInit == d = 0 /\ t \in Odd
OdEmit == PrintT("CASE\tany\t" \o t \o "\t" \o t)
Init == CASE Fam = "op" -> OInit [] Fam = "ix" -> IInit [] Fam = "nest" -> NInit [] Fam = "odd" -> OdInit
Next == CASE Fam = "nest" -> NNext [] OTHER -> d < 0 /\ UNCHANGED vars
Emit == CASE Fam = "op" -> OEmit [] Fam = "ix" -> IEmit [] Fam = "nest" -> NEmit [] Fam = "odd" -> OdEmit
=============================================================================
