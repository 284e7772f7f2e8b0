------------------------------- MODULE Sorts -------------------------------
(* The term language: what sorts terms have, how they are written, and which terms texts stand for.
   Sorts are tuples: <<"Bool">>, <<"bv", w>>, <<"arr", k, v>>, <<"fun", args, res>>, <<"U">>, ...
   Terms are tuples:
     <<"v", name, sort>>           a variable or a declared constant
     <<"c", sort, val, txt>>       a constant; txt is how it is written
     <<"o", op, args>>             an operator of a theory
     <<"p", op, idx, args>>        an indexed operator
     <<"as", sort, arg>>           a constant array
     <<"a", f, args>>              an application of a function
     <<"b", binder, vars, body>>   vars: sequence of <<name, sort>>
     <<"l", binds, body>>          binds: sequence of <<name, term>>
   SortOf(t) is <<"bad">> when t is not well-sorted. Free marks terms that may be refused as well (extensions of
   the SMT-LIB language that the options control or that the checker is lenient about). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == <<"Bool">>   I == <<"Int">>   Re == <<"Real">>   St == <<"String">>   Rl == <<"RegLan">>   UU == <<"U">>
BV(w) == <<"bv", w>>
Arr(k, v) == <<"arr", k, v>>
Fun(ss, r) == <<"fun", ss, r>>
Bad == <<"bad">>
IsBV(s) == s[1] = "bv"
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE SortTxt(_)
SortTxt(s) ==
  CASE s[1] = "bv" -> "(_ BitVec " \o ToString(s[2]) \o ")"
  [] s[1] = "arr" -> "(Array " \o SortTxt(s[2]) \o " " \o SortTxt(s[3]) \o ")"
  [] s[1] = "fun" -> "(Func " \o Join([k \in 1..Len(s[2]) |-> SortTxt(s[2][k])], " ") \o " " \o SortTxt(s[3]) \o ")"
  [] s[1] = "app" -> "(" \o s[2] \o " " \o Join([k \in 1..Len(s[3]) |-> SortTxt(s[3][k])], " ") \o ")"
  [] OTHER -> s[1]
All(ss, s) == \A k \in 1..Len(ss) : ss[k] = s
Same(ss) == \A k \in 1..Len(ss) : ss[k] = ss[1]
Arith(ss) == \A k \in 1..Len(ss) : ss[k] \in {I, Re}
If(c, s) == IF c THEN s ELSE Bad
RECURSIVE SumW(_)
SumW(ss) == IF ss = <<>> THEN 0 ELSE ss[1][2] + SumW(Tail(ss))
\* ------------------------------------------------------------ signatures of the operators
Core == {"true", "false", "not", "=>", "and", "or", "xor", "=", "distinct", "ite"}
Arithm == {"+", "-", "*", "div", "/", "mod", "abs", "<", ">", "<=", ">=", "to_real", "to_int", "is_int"}
Arrays == {"select", "store"}
Strs == {"str.++", "str.len", "str.<", "str.<=", "str.at", "str.substr", "str.prefixof", "str.suffixof", "str.contains", "str.indexof", "str.replace", "str.replace_all", "str.replace_re", "str.replace_re_all", "str.is_digit", "str.to_code", "str.from_code", "str.to_int", "str.from_int",
         "str.to_re", "str.in_re", "re.none", "re.all", "re.allchar", "re.++", "re.union", "re.inter", "re.*", "re.comp", "re.diff", "re.+", "re.opt", "re.range"}
BvNary == {"bvand", "bvor", "bvadd", "bvmul", "bvxor"}
BvBin == {"bvudiv", "bvurem", "bvshl", "bvlshr", "bvnand", "bvnor", "bvxnor", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr"}
BvCmp == {"bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}
BvOther == {"bvnot", "bvneg", "bvcomp", "concat", "ubv_to_int", "sbv_to_int", "@bbterm", "@bvsize"}
Ops == Core \cup Arithm \cup Arrays \cup Strs \cup BvNary \cup BvBin \cup BvCmp \cup BvOther
\* fixed signatures: argument sorts, result
Fixed == [
  x \in {"str.len", "str.<", "str.<=", "str.at", "str.substr", "str.prefixof", "str.suffixof", "str.contains", "str.indexof", "str.replace", "str.replace_all", "str.replace_re", "str.replace_re_all", "str.is_digit", "str.to_code", "str.from_code", "str.to_int", "str.from_int",
         "str.to_re", "str.in_re", "re.none", "re.all", "re.allchar", "re.*", "re.comp", "re.+", "re.opt", "re.range", "mod", "abs", "to_real", "to_int", "is_int", "true", "false", "not"} |->
  CASE x \in {"str.len", "str.to_code", "str.to_int"} -> <<<<St>>, I>>
  [] x \in {"str.<", "str.<=", "str.prefixof", "str.suffixof", "str.contains"} -> <<<<St, St>>, B>>
  [] x = "str.at" -> <<<<St, I>>, St>>
  [] x = "str.substr" -> <<<<St, I, I>>, St>>
  [] x = "str.indexof" -> <<<<St, St, I>>, I>>
  [] x \in {"str.replace", "str.replace_all"} -> <<<<St, St, St>>, St>>
  [] x \in {"str.replace_re", "str.replace_re_all"} -> <<<<St, Rl, St>>, St>>
  [] x = "str.is_digit" -> <<<<St>>, B>>
  [] x \in {"str.from_code", "str.from_int"} -> <<<<I>>, St>>
  [] x = "str.to_re" -> <<<<St>>, Rl>>
  [] x = "str.in_re" -> <<<<St, Rl>>, B>>
  [] x \in {"re.none", "re.all", "re.allchar"} -> <<<<>>, Rl>>
  [] x \in {"re.*", "re.comp", "re.+", "re.opt"} -> <<<<Rl>>, Rl>>
  [] x = "re.range" -> <<<<St, St>>, Rl>>
  [] x = "mod" -> <<<<I, I>>, I>>
  [] x = "abs" -> <<<<I>>, I>>
  [] x = "to_real" -> <<<<I>>, Re>>
  [] x = "to_int" -> <<<<Re>>, I>>
  [] x = "is_int" -> <<<<Re>>, B>>
  [] x \in {"true", "false"} -> <<<<>>, B>>
  [] x = "not" -> <<<<B>>, B>>]
OpSort(op, ss) ==
  LET n == Len(ss) IN
  CASE op \in DOMAIN Fixed -> If(ss = Fixed[op][1], Fixed[op][2])
  [] op \in {"=>"} -> If(n >= 2 /\ All(ss, B), B)
  [] op \in {"and", "or", "xor"} -> If(n >= 1 /\ All(ss, B), B)
  [] op \in {"=", "distinct"} -> If(n >= 2 /\ Same(ss), B)
  [] op = "ite" -> If(n = 3 /\ ss[1] = B /\ ss[2] = ss[3], ss[3])
  [] op \in {"+", "*"} -> If(n >= 2 /\ Arith(ss) /\ Same(ss), ss[1])
  [] op = "-" -> If(n >= 1 /\ Arith(ss) /\ Same(ss), ss[1])
  [] op = "div" -> If(n >= 2 /\ All(ss, I), I)
  [] op = "/" -> If(n >= 2 /\ All(ss, Re), Re)
  [] op \in {"<", ">", "<=", ">="} -> If(n >= 2 /\ Arith(ss), B)
  [] op = "select" -> If(n = 2 /\ ss[1][1] = "arr" /\ ss[1][2] = ss[2], ss[1][3])
  [] op = "store" -> If(n = 3 /\ ss[1][1] = "arr" /\ ss[1][2] = ss[2] /\ ss[1][3] = ss[3], ss[1])
  [] op = "str.++" -> If(n >= 2 /\ All(ss, St), St)
  [] op \in {"re.++", "re.union", "re.inter", "re.diff"} -> If(n >= 2 /\ All(ss, Rl), Rl)
  [] op \in {"bvnot", "bvneg"} -> If(n = 1 /\ IsBV(ss[1]), ss[1])
  [] op \in BvNary -> If(n >= 2 /\ IsBV(ss[1]) /\ Same(ss), ss[1])
  [] op \in BvBin -> If(n = 2 /\ IsBV(ss[1]) /\ Same(ss), ss[1])
  [] op \in BvCmp -> If(n = 2 /\ IsBV(ss[1]) /\ Same(ss), B)
  [] op = "bvcomp" -> If(n = 2 /\ IsBV(ss[1]) /\ Same(ss), BV(1))
  [] op = "concat" -> If(n >= 2 /\ \A k \in 1..n : IsBV(ss[k]), BV(SumW(ss)))
  [] op \in {"ubv_to_int", "sbv_to_int", "@bvsize"} -> If(n = 1 /\ IsBV(ss[1]), I)
  [] op = "@bbterm" -> If(n >= 1 /\ All(ss, B), BV(n))
  [] OTHER -> Bad
\* well-sorted only as an extension: the checker may take it or not
FreeOp(op, ss) ==
  LET n == Len(ss) IN
  \/ op \in {"and", "or", "xor"} /\ n = 1
  \/ op \in {"<", ">", "<=", ">="} /\ ~Same(ss)
\* with integers as a subsort of the reals
SubSort(op, ss) ==
  LET n == Len(ss) m == IF \E k \in 1..n : ss[k] = Re THEN Re ELSE I IN
  CASE op \in {"+", "*"} -> If(n >= 2 /\ Arith(ss), m)
  [] op = "-" -> If(n >= 1 /\ Arith(ss), m)
  [] op = "/" -> If(n >= 2 /\ Arith(ss), Re)
  [] op = "abs" -> If(n = 1 /\ Arith(ss), m)
  [] OTHER -> OpSort(op, ss)
IOps == {"extract", "@bit_of", "zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat", "int_to_bv", "re.^", "re.loop"}
IOpSort(op, idx, ss) ==
  LET n == Len(ss) m == Len(idx) pos == \A k \in 1..m : idx[k] >= 0 IN
  IF n # 1 \/ ~pos THEN Bad
  ELSE CASE op = "extract" -> If(m = 2 /\ IsBV(ss[1]) /\ m = 2 /\ idx[1] < ss[1][2] /\ idx[1] >= idx[2], BV(idx[1] - idx[2] + 1))
  [] op = "@bit_of" -> If(m = 1 /\ IsBV(ss[1]), B)
  [] op \in {"zero_extend", "sign_extend"} -> If(m = 1 /\ IsBV(ss[1]), BV(ss[1][2] + idx[1]))
  [] op \in {"rotate_left", "rotate_right"} -> If(m = 1 /\ IsBV(ss[1]), ss[1])
  [] op = "repeat" -> If(m = 1 /\ IsBV(ss[1]) /\ idx[1] >= 1, BV(ss[1][2] * idx[1]))
  [] op = "int_to_bv" -> If(m = 1 /\ ss[1] = I /\ idx[1] >= 1, BV(idx[1]))
  [] op = "re.^" -> If(m = 1 /\ ss[1] = Rl, Rl)
  [] op = "re.loop" -> If(m = 2 /\ ss[1] = Rl, Rl)
  [] OTHER -> Bad
RECURSIVE SortOf(_)
SortOf(t) ==
  CASE t[1] = "v" -> t[3]
  [] t[1] = "c" -> t[2]
  [] t[1] = "o" -> LET ss == [k \in 1..Len(t[3]) |-> SortOf(t[3][k])] IN IF \E k \in 1..Len(ss) : ss[k] = Bad THEN Bad ELSE OpSort(t[2], ss)
  [] t[1] = "p" -> LET ss == [k \in 1..Len(t[4]) |-> SortOf(t[4][k])] IN IF \E k \in 1..Len(ss) : ss[k] = Bad THEN Bad ELSE IOpSort(t[2], t[3], ss)
  [] t[1] = "as" -> LET s == SortOf(t[3]) IN If(s # Bad /\ t[2][1] = "arr" /\ t[2][3] = s, t[2])
  [] t[1] = "a" -> LET f == SortOf(t[2]) ss == [k \in 1..Len(t[3]) |-> SortOf(t[3][k])] IN If(f[1] = "fun" /\ Len(ss) > 0 /\ f[2] = ss, f[3])
  [] t[1] = "b" -> LET s == SortOf(t[4]) IN
       IF s = Bad THEN Bad
       ELSE CASE t[2] = "lambda" -> Fun([k \in 1..Len(t[3]) |-> t[3][k][2]], s)
            [] t[2] = "choice" -> If(s = B /\ Len(t[3]) = 1, t[3][1][2])
            [] OTHER -> If(s = B, B)
  [] t[1] = "l" -> IF \E k \in 1..Len(t[2]) : SortOf(t[2][k][2]) = Bad THEN Bad ELSE SortOf(t[3])
\* ------------------------------------------------------------ how terms are written
RECURSIVE Txt(_)
Txts(s) == Join([k \in 1..Len(s) |-> Txt(s[k])], " ")
Txt(t) ==
  CASE t[1] = "v" -> t[2]
  [] t[1] = "c" -> t[4]
  [] t[1] = "o" -> IF t[3] = <<>> THEN t[2] ELSE "(" \o t[2] \o " " \o Txts(t[3]) \o ")"
  [] t[1] = "p" -> "((_ " \o t[2] \o " " \o Join([k \in 1..Len(t[3]) |-> ToString(t[3][k])], " ") \o ")" \o (IF t[4] = <<>> THEN ")" ELSE " " \o Txts(t[4]) \o ")")
  [] t[1] = "as" -> "((as const " \o SortTxt(t[2]) \o ") " \o Txt(t[3]) \o ")"
  [] t[1] = "a" -> IF t[3] = <<>> THEN "(" \o Txt(t[2]) \o ")" ELSE "(" \o Txt(t[2]) \o " " \o Txts(t[3]) \o ")"
  [] t[1] = "b" -> "(" \o t[2] \o " (" \o Join([k \in 1..Len(t[3]) |-> "(" \o t[3][k][1] \o " " \o SortTxt(t[3][k][2]) \o ")"], " ") \o ") " \o Txt(t[4]) \o ")"
  [] t[1] = "l" -> "(let (" \o Join([k \in 1..Len(t[2]) |-> "(" \o t[2][k][1] \o " " \o Txt(t[2][k][2]) \o ")"], " ") \o ") " \o Txt(t[3]) \o ")"
\* ------------------------------------------------------------ which term it is, with the sorts of variables and the values of constants
RECURSIVE Canon(_)
Canons(s) == Join([k \in 1..Len(s) |-> Canon(s[k])], " ")
Canon(t) ==
  CASE t[1] = "v" -> t[2] \o ":" \o SortTxt(t[3])
  [] t[1] = "c" -> SortTxt(t[2]) \o "#" \o t[3]
  [] t[1] = "o" -> "(" \o t[2] \o (IF t[3] = <<>> THEN "" ELSE " ") \o Canons(t[3]) \o ")"
  [] t[1] = "p" -> "(_" \o t[2] \o " [" \o Join([k \in 1..Len(t[3]) |-> ToString(t[3][k])], " ") \o "] " \o Canons(t[4]) \o ")"
  [] t[1] = "as" -> "(_const [" \o SortTxt(t[2]) \o "] " \o Canon(t[3]) \o ")"
  [] t[1] = "a" -> "(@ " \o Canon(t[2]) \o " " \o Canons(t[3]) \o ")"
  [] t[1] = "b" -> "(!" \o t[2] \o " (" \o Join([k \in 1..Len(t[3]) |-> t[3][k][1] \o ":" \o SortTxt(t[3][k][2])], " ") \o ") " \o Canon(t[4]) \o ")"
  [] t[1] = "l" -> "(!let (" \o Join([k \in 1..Len(t[2]) |-> t[2][k][1] \o "=" \o Canon(t[2][k][2])], " ") \o ") " \o Canon(t[3]) \o ")"
\* ------------------------------------------------------------ declared symbols and constants
V(n, s) == <<"v", n, s>>
O(op, args) == <<"o", op, args>>
Decl == "(declare-sort U 0)(declare-sort P 2)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun a () U)(declare-fun b () U)(declare-fun i () Int)(declare-fun j () Int)(declare-fun r () Real)(declare-fun s () String)(declare-fun l () RegLan)(declare-fun u () (_ BitVec 1))(declare-fun w () (_ BitVec 2))(declare-fun z () (_ BitVec 3))(declare-fun m () (Array U Bool))(declare-fun n () (Array Int Int))(declare-fun k () (P U Int))(declare-fun f (U) U)(declare-fun g (U Int) Bool)(declare-fun h (Bool) (_ BitVec 2))"
PUI == <<"app", "P", <<UU, I>>>>
Leaf == <<V("p", B), V("a", UU), V("i", I), V("r", Re), V("s", St), V("l", Rl), V("u", BV(1)), V("w", BV(2)), V("z", BV(3)), V("m", Arr(UU, B)), V("n", Arr(I, I)), V("k", PUI), V("f", Fun(<<UU>>, UU))>>
LeafSet == {Leaf[x] : x \in 1..Len(Leaf)}
Funs == <<V("f", Fun(<<UU>>, UU)), V("g", Fun(<<UU, I>>, B)), V("h", Fun(<<B>>, BV(2)))>>
\* ------------------------------------------------------------ raw terms over names, resolved in an environment of sorts
RECURSIVE Res(_, _)
Res(x, env) ==
  CASE x[1] = "n" -> IF x[2] \in DOMAIN env THEN V(x[2], env[x[2]]) ELSE <<"v", x[2], Bad>>
  [] x[1] = "f" -> <<"a", V("f", Fun(<<UU>>, UU)), <<Res(x[2], env)>>>>
  [] x[1] = "not" -> O("not", <<Res(x[2], env)>>)
  [] x[1] = "=" -> O("=", <<Res(x[2], env), Res(x[3], env)>>)
  [] x[1] = "b" -> <<"b", x[2], x[3], Res(x[4], [y \in DOMAIN env \cup {x[3][k][1] : k \in 1..Len(x[3])} |-> LET S == {k \in 1..Len(x[3]) : x[3][k][1] = y} IN IF S = {} THEN env[y] ELSE x[3][CHOOSE k \in S : \A m \in S : k >= m][2]])>>
  [] x[1] = "l" -> LET bs == [k \in 1..Len(x[2]) |-> <<x[2][k][1], Res(x[2][k][2], env)>>] IN
                   <<"l", bs, Res(x[3], [y \in DOMAIN env \cup {bs[k][1] : k \in 1..Len(bs)} |-> LET S == {k \in 1..Len(bs) : bs[k][1] = y} IN IF S = {} THEN env[y] ELSE SortOf(bs[CHOOSE k \in S : TRUE][2])])>>
\* an undefined name anywhere makes the term bad
RECURSIVE Undef(_)
Undef(x) ==
  CASE x[1] = "v" -> x[3] = Bad
  [] x[1] = "o" -> \E k \in 1..Len(x[3]) : Undef(x[3][k])
  [] x[1] = "a" -> \E k \in 1..Len(x[3]) : Undef(x[3][k])
  [] x[1] = "b" -> Undef(x[4])
  [] x[1] = "l" -> Undef(x[3]) \/ \E k \in 1..Len(x[2]) : Undef(x[2][k][2])
  [] OTHER -> FALSE
=============================================================================
