------------------------------- MODULE SortsM -------------------------------
(* C27, C23: terms, well-sorted or not, built one argument or one constructor at a time. *)
EXTENDS Sorts
CONSTANTS Fam, MaxN, Depth, Part, Parts
VARIABLES t, d
vars == <<t, d>>
Status(x) == IF SortOf(x) = Bad THEN "bad" ELSE "ok"
Row(kind, x, st, extra) == PrintT("CASE\t" \o kind \o "\t" \o Txt(x) \o "\t" \o st \o "\t" \o (IF st = "bad" THEN "" ELSE SortTxt(SortOf(x)) \o "\t" \o Canon(x)) \o extra)
\* ------------------------------------------------------------ one operator applied to any leaves
OInit == d = 0 /\ t \in {O(op, <<>>) : op \in Ops}
Nary == {"and", "or", "xor", "=>", "=", "distinct", "+", "-", "*", "div", "/", "<", ">=", "str.++", "re.++", "re.union", "re.diff", "bvadd", "bvand", "concat", "@bbterm", "str.substr", "ite", "store", "bvudiv"}
ONext == /\ d' = d + 1
         /\ d < MaxN \/ (d = MaxN /\ t[2] \in Nary /\ OpSort(t[2], [k \in 1..d |-> SortOf(t[3][k])]) # Bad)
         /\ \E x \in LeafSet : t' = O(t[2], Append(t[3], x))
OStatus(x) == LET ss == [k \in 1..Len(x[3]) |-> SortOf(x[3][k])] IN
  IF OpSort(x[2], ss) = Bad THEN "bad" ELSE IF FreeOp(x[2], ss) THEN "free" ELSE "ok"
\* the same operator with integers as a subsort of the reals
OSub(x) == LET s == SubSort(x[2], [k \in 1..Len(x[3]) |-> SortOf(x[3][k])]) IN IF s = Bad THEN "bad" ELSE SortTxt(s)
OEmit == Row("op", t, OStatus(t), IF OStatus(t) = "bad" THEN "\t" \o OSub(t) ELSE "\t" \o OSub(t))
\* ------------------------------------------------------------ indexed operators, constant arrays, applications
Idx == {0, 1, 2, 3, -1}
IdxSeqs == {<<>>} \cup {<<x>> : x \in Idx} \cup {<<x, y>> : x \in Idx, y \in Idx} \cup {<<1, 0, 0>>}
ArgSeqs == {<<>>} \cup {<<x>> : x \in LeafSet} \cup {<<x, x>> : x \in {V("w", BV(2)), V("l", Rl)}}
IInit == d = 0 /\ t \in {<<"p", op, ix, as>> : op \in IOps, ix \in IdxSeqs, as \in ArgSeqs}
                    \cup {<<"as", s, x>> : s \in {Arr(UU, B), Arr(I, I), Arr(I, Arr(UU, B)), UU, BV(2)}, x \in LeafSet}
                    \cup {<<"a", fn, as>> : fn \in LeafSet \cup {Funs[x] : x \in 1..Len(Funs)}, as \in ArgSeqs \cup {<<x, y>> : x \in LeafSet, y \in LeafSet}}
\* no application without arguments
INext == d < 0 /\ UNCHANGED vars
NegIdx(x) == x[1] = "p" /\ \E k \in 1..Len(x[3]) : x[3][k] < 0
\* indices whose meaning SMT-LIB does not give a sort to, or zero widths: may be refused
\* a bit beyond the width (SMT-LIB does not know the operator, a test of the repository reads such a term) may be refused
BeyondBit == t[1] = "p" /\ t[2] = "@bit_of" /\ Len(t[4]) = 1 /\ Len(t[3]) = 1 /\ IsBV(SortOf(t[4][1])) /\ t[3][1] >= SortOf(t[4][1])[2]
IEmit == Row("idx", t, IF t[1] = "p" /\ t[4] = <<>> THEN "bad" ELSE IF Status(t) = "ok" /\ BeyondBit THEN "free" ELSE Status(t), "")
\* ------------------------------------------------------------ well-sorted terms, nested
LeafSorts == {SortOf(x) : x \in LeafSet}
LeafOf(s) == CHOOSE x \in LeafSet : SortOf(x) = s
Seqs(S, n) == CASE n = 1 -> {<<x>> : x \in S} [] n = 2 -> {<<x, y>> : x \in S, y \in S} [] n = 3 -> {<<x, y, v>> : x \in S, y \in S, v \in S} [] OTHER -> {<<>>}
Sigs == {sg \in Ops \X (UNION {Seqs(LeafSorts, n) : n \in 0..3}) : OpSort(sg[1], sg[2]) # Bad /\ ~FreeOp(sg[1], sg[2])}
FunArgs == {<<fn, SortOf(fn)[2]>> : fn \in {Funs[x] : x \in 1..Len(Funs)}}
Fill(ss, p, x) == [k \in 1..Len(ss) |-> IF k = p THEN x ELSE LeafOf(ss[k])]
Wraps(x) ==
  LET s == SortOf(x) IN
  UNION {{O(sg[1], Fill(sg[2], p, x)) : p \in {k \in 1..Len(sg[2]) : sg[2][k] = s}} : sg \in {y \in Sigs : s \in {y[2][k] : k \in 1..Len(y[2])}}}
  \cup UNION {{<<"a", fa[1], Fill(fa[2], p, x)>> : p \in {k \in 1..Len(fa[2]) : fa[2][k] = s}} : fa \in FunArgs}
  \cup {y \in {<<"p", op, ix, <<x>>>> : op \in IOps, ix \in {<<1>>, <<2>>, <<1, 0>>, <<1, 1>>, <<2, 1>>}} : SortOf(y) # Bad}
  \cup (IF s[1] = "fun" THEN {} ELSE {<<"as", Arr(I, s), x>>, O("=", <<x, x>>), O("ite", <<V("p", B), x, x>>)})
  \cup {<<"b", bd, <<<<"v", ss>>>>, x>> : bd \in (IF s = B THEN {"forall", "exists", "choice", "lambda"} ELSE {"lambda"}), ss \in {UU, BV(2)}}
  \cup {<<"l", <<<<"v", x>>>>, V("v", s)>>}
  \cup (IF s[1] = "fun" /\ s[2] \in {<<y>> : y \in LeafSorts} THEN {<<"a", x, <<LeafOf(s[2][1])>>>>} ELSE {})
NInit == d = 0 /\ t \in LeafSet
NNext == d < Depth /\ d' = d + 1 /\ t' \in Wraps(t)
NEmit == d > 0 => Row("nest", t, "ok", "")
\* ------------------------------------------------------------ scopes: raw terms over names, resolved in an environment
RawAtoms == {<<"n", x>> : x \in {"x", "y", "a", "p"}}
Raw1 == RawAtoms \cup {<<"f", x>> : x \in RawAtoms} \cup {<<"=", x, y>> : x \in RawAtoms, y \in RawAtoms} \cup {<<"not", x>> : x \in RawAtoms}
VarLists == {<<<<"x", UU>>>>, <<<<"x", B>>>>, <<<<"a", B>>>>, <<<<"x", UU>>, <<"y", B>>>>, <<<<"y", B>>, <<"x", B>>>>}
BindLists == {<<<<"x", <<"n", "a">>>>>>, <<<<"x", <<"n", "p">>>>>>, <<<<"a", <<"n", "p">>>>>>, <<<<"x", <<"n", "y">>>>, <<"y", <<"n", "x">>>>>>, <<<<"x", <<"f", <<"n", "x">>>>>>>>, <<<<"a", <<"n", "p">>>>, <<"p", <<"n", "a">>>>>>}
Bind(S) == {<<"b", bd, vs, x>> : bd \in {"forall", "exists", "lambda"}, vs \in VarLists, x \in S} \cup {<<"b", "choice", vs, x>> : vs \in {v \in VarLists : Len(v) = 1}, x \in S} \cup {<<"l", bs, x>> : bs \in BindLists, x \in S}
Raw2 == Bind(Raw1)
Env0 == [y \in {"a", "p"} |-> IF y = "a" THEN UU ELSE B]
SInit == d = 0 /\ t \in Raw1 \cup Raw2
SNext == d = 0 /\ d' = 1 /\ t \in Raw2 /\ t' \in Bind({t}) \cup {<<"=", t, x>> : x \in RawAtoms} \cup {<<"=", x, t>> : x \in RawAtoms} \cup {<<"not", t>>, <<"f", t>>}
SEmit == LET x == Res(t, Env0) IN Row("scope", x, IF Undef(x) THEN "bad" ELSE Status(x), "")
Init == CASE Fam = "op" -> OInit [] Fam = "idx" -> IInit [] Fam = "nest" -> NInit [] Fam = "scope" -> SInit
Next == CASE Fam = "op" -> ONext [] Fam = "idx" -> INext [] Fam = "nest" -> NNext [] Fam = "scope" -> SNext
Emit == CASE Fam = "op" -> OEmit [] Fam = "idx" -> IEmit [] Fam = "nest" -> NEmit [] Fam = "scope" -> SEmit
=============================================================================
