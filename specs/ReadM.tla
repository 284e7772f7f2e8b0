-------------------------------- MODULE ReadM --------------------------------
(* C27: what texts of whole problems and proofs stand for: literals (lit), sorts and sort definitions (sort), terms at every
   position where a sort is required (pos), names in scopes opened by subproofs, with anchor arguments, function definitions
   and named terms (anch). *)
EXTENDS Sorts
CONSTANTS Fam, MaxN
VARIABLES t, d
vars == <<t, d>>
Min2(x, y) == IF x < y THEN x ELSE y
\* ------------------------------------------------------------ literals
Digits == {0, 1, 7}
DSeqs(n) == CASE n = 0 -> {<<>>} [] n = 1 -> {<<x>> : x \in Digits} [] n = 2 -> {<<x, y>> : x \in Digits, y \in Digits} [] n = 3 -> {<<x, y, z>> : x \in Digits, y \in Digits, z \in Digits}
DUp(n) == UNION {DSeqs(k) : k \in 1..n}
TxtD(s) == Join([k \in 1..Len(s) |-> ToString(s[k])], "")
RECURSIVE Num(_, _)
Num(s, base) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1), base) * base + s[Len(s)]
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Lead0(s) == Len(s) > 1 /\ s[1] = 0
Rat(neg, n, m) == LET g == Gcd(n, m) IN (IF neg /\ n # 0 THEN "-" ELSE "") \o ToString(n \div g) \o (IF m \div g = 1 THEN "" ELSE "/" \o ToString(m \div g))
\* a row: text, status, sort, canonical description
LBad(x) == <<x, "bad", "", "">>
LOk(x, s, v) == <<x, "ok", SortTxt(s), SortTxt(s) \o "#" \o v>>
Sg(neg) == IF neg THEN "-" ELSE ""
LInt(neg, s) == IF Lead0(s) THEN LBad(Sg(neg) \o TxtD(s)) ELSE LOk(Sg(neg) \o TxtD(s), I, Sg(neg /\ Num(s, 10) # 0) \o ToString(Num(s, 10)))
LDec(neg, s, f) == LET x == Sg(neg) \o TxtD(s) \o "." \o TxtD(f) IN IF Lead0(s) THEN LBad(x) ELSE LOk(x, Re, Rat(neg, Num(s \o f, 10), Pow(10, Len(f))))
LFrac(neg, s, f) == LET x == Sg(neg) \o TxtD(s) \o "/" \o TxtD(f) IN IF Lead0(s) \/ f = <<>> \/ Num(f, 10) = 0 THEN LBad(x) ELSE LOk(x, Re, Rat(neg, Num(s, 10), Num(f, 10)))
Hex == <<"0", "9", "A", "f">>
HexV == <<0, 9, 10, 15>>
HSeqs == {<<x>> : x \in 1..4} \cup {<<x, y>> : x \in 1..4, y \in 1..4}
LBin(s) == LOk("#b" \o TxtD(s), BV(Len(s)), ToString(Num(s, 2)))
LHex(s) == LOk("#x" \o Join([k \in 1..Len(s) |-> Hex[s[k]]], ""), BV(4 * Len(s)), ToString(Num([k \in 1..Len(s) |-> HexV[s[k]]], 16)))
LBv(x, w) == LET y == "(_ bv" \o ToString(x) \o " " \o ToString(w) \o ")" IN IF x < 0 \/ w < 1 THEN LBad(y) ELSE LOk(y, BV(w), ToString(x % Pow(2, w)))
\* strings: the pieces they are written with, and the code points these stand for
Pieces == <<<<"a", <<97>>>>, <<"\"\"", <<34>>>>, <<"\\u{41}", <<65>>>>, <<"\\u0041", <<65>>>>, <<"\\u{2FFFF}", <<196607>>>>, <<"\\u{30000}", <<92, 117, 123, 51, 48, 48, 48, 48, 125>>>>, <<"\\u{5c}", <<92>>>>, <<"\\u{}", <<92, 117, 123, 125>>>>, <<"\\u{g}", <<92, 117, 123, 103, 125>>>>, <<"\\u00g", <<92, 117, 48, 48, 103>>>>, <<"\\n", <<92, 110>>>>, <<" ", <<32>>>>, <<";", <<59>>>>, <<"|", <<124>>>>, <<"u{41}", <<117, 123, 52, 49, 125>>>>, <<"41}", <<52, 49, 125>>>>, <<"\\", <<92>>>>, <<"\\u{000041}", <<92, 117, 123, 48, 48, 48, 48, 52, 49, 125>>>>>>
PIdx == 1..Len(Pieces)
\* the last lone backslash may meet the following piece: leave out what it would turn into another escape
POk(s) == \A k \in 1..(Len(s) - 1) : ~(s[k] = 17 /\ s[k + 1] \in {15})
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
LStr(s) == LOk("\"" \o Join([k \in 1..Len(s) |-> Pieces[s[k]][1]], "") \o "\"", St, "[" \o Join([k \in 1..Len(Flat([m \in 1..Len(s) |-> Pieces[s[m]][2]])) |-> ToString(Flat([m \in 1..Len(s) |-> Pieces[s[m]][2]])[k])], ", ") \o "]")
PSeqs == {<<>>} \cup {<<x>> : x \in PIdx} \cup {<<x, y>> : x \in PIdx, y \in PIdx} \cup {<<x, y, z>> : x \in {1, 3, 17}, y \in PIdx, z \in {1, 2, 6}}
Lits == {LInt(ng, s) : ng \in BOOLEAN, s \in DUp(3)} \cup {LDec(ng, s, f) : ng \in BOOLEAN, s \in DUp(2), f \in DUp(3)} \cup {LFrac(ng, s, f) : ng \in BOOLEAN, s \in DUp(2), f \in {<<>>} \cup DUp(2)}
  \cup {LBin(s) : s \in UNION {{x \in DSeqs(n) : \A k \in 1..n : x[k] < 2} : n \in 1..3}} \cup {LHex(s) : s \in HSeqs} \cup {LBv(x, w) : x \in -1..9, w \in -1..4}
  \cup {LStr(s) : s \in {x \in PSeqs : POk(x)}}
  \cup {LBad(x) : x \in {"#b", "#x", "#b2", "#xg", "#o7", "#", "1.2.3", "1/2/3", "1.2/3", "(_ bv 2)", "(_ bvx 2)", "(_ bv-1 2)", "(_ bv1)", "(_ bv1 2 3)", "(_ bv1 x)", "(_ bv1 2.0)", "(_ bv+1 2)", "(_ bv_1 2)", "\"a", "\"a\\", "\"a\\u", "\"a\\u{4", "|a", "|a\\b|", "(bv1 2)", "-", "--1", "()", "(1)", "(1 2)", "(+ 1", "(\"a\")", "(_ a)", "(_ + 1)", "(_ extract 1 0)", "((_ extract 1) w)", "((_ extract 1 0 0) w)", "((_ extract a 0) w)", "((_ extract (+ 1 0) 0) w)", "((_ foo 1) w)", "(as const 1)", "((as foo (Array Int Int)) 1)", "((as const Int) 1)", "(as const (Array Int Int))", "((as const (Array Int Int)))", "((as const (Array Int Int)) 1 2)", "(let () p)", "(let ((x)) p)", "(let ((x p)))", "(forall () p)", "(forall ((x)) p)", "(forall (x) p)", "(choice () p)", "(choice ((x U) (y U)) p)", "(lambda () p)", "(! p)", "let", "forall", "_", "as", "!", "cl", "(forall ((x V)) p)", "(forall ((x (P U))) p)", "(forall ((x (_ BitVec 0))) p)", "(forall ((x (_ BitVec -1))) p)", "(forall ((x (_ BitVec a))) p)", "(forall ((x (_ BitVec))) p)", "(forall ((x (_ BitVec 1 2))) p)", "(forall ((x (_ Foo 1))) p)", "(forall ((x (Int))) p)", "(forall ((x (Int Int))) p)", "(forall ((x (Array Int))) p)", "(forall ((x ())) p)", "(forall ((x 1)) p)"}}
LInit == d = 0 /\ t \in Lits
LEmit == PrintT("CASE\tlit\t" \o t[1] \o "\t" \o t[2] \o "\t" \o t[3] \o "\t" \o t[4])
\* ------------------------------------------------------------ sorts: raw sorts are names or applications <<name, args>>
\* A, U: declared with arity 0; P: arity 2. Definitions: <<name, params, raw>>, later ones use earlier ones.
RawS1 == {<<x, <<>>>> : x \in {"Int", "A", "U", "X", "M"}}
RawS2 == {<<"Array", <<x, y>>>> : x \in RawS1, y \in RawS1} \cup {<<"P", <<x, y>>>> : x \in RawS1, y \in {<<"A", <<>>>>, <<"X", <<>>>>}} \cup {<<nm, <<x>>>> : nm \in {"M", "U", "Array", "Int", "P", "X"}, x \in {<<"A", <<>>>>, <<"Int", <<>>>>}}
MDefs == {<<"M", <<>>, x>> : x \in {y \in RawS1 : y[1] # "M"}} \cup {<<"M", <<"X">>, <<"Array", <<<<"X", <<>>>>, <<"A", <<>>>>>>>>>>, <<"M", <<"A">>, <<"Array", <<<<"A", <<>>>>, <<"U", <<>>>>>>>>>>, <<"M", <<"A">>, <<"A", <<>>>>>>}
LDefs == {<<"L", ps, x>> : ps \in {<<>>, <<"A">>, <<"X">>, <<"M">>, <<"X", "A">>, <<"A", "X">>, <<"U">>}, x \in RawS1 \cup RawS2}
RECURSIVE ResS(_, _, _)
\* defs: sequence of definitions in scope; params: function from names to sorts
ResS(x, defs, params) ==
  LET as == [k \in 1..Len(x[2]) |-> ResS(x[2][k], defs, params)] IN
  IF \E k \in 1..Len(as) : as[k] = Bad THEN Bad
  ELSE IF x[1] \in DOMAIN params THEN If(as = <<>>, params[x[1]])
  ELSE IF \E k \in 1..Len(defs) : defs[k][1] = x[1] THEN
    LET kk == CHOOSE k \in 1..Len(defs) : defs[k][1] = x[1] df == defs[kk] IN
    IF Len(df[2]) # Len(as) THEN Bad
    ELSE ResS(df[3], SubSeq(defs, 1, kk - 1), [y \in {df[2][k] : k \in 1..Len(as)} |-> as[CHOOSE k \in 1..Len(as) : df[2][k] = y]])
  ELSE CASE x[1] = "Array" -> IF Len(as) = 2 THEN Arr(as[1], as[2]) ELSE Bad
       [] x[1] = "P" -> IF Len(as) = 2 THEN <<"app", "P", as>> ELSE Bad
       [] x[1] \in {"Int", "A", "U"} -> IF as = <<>> THEN <<x[1]>> ELSE Bad
       [] OTHER -> Bad
RECURSIVE RawTxt(_)
RawTxt(x) == IF x[2] = <<>> THEN x[1] ELSE "(" \o x[1] \o " " \o Join([k \in 1..Len(x[2]) |-> RawTxt(x[2][k])], " ") \o ")"
DefTxt(df) == "(define-sort " \o df[1] \o " (" \o Join(df[2], " ") \o ") " \o RawTxt(df[3]) \o ")"
\* a definition is checked when it is read, with its parameters standing for themselves
DefOk(df, defs) == ResS(df[3], defs, [y \in {df[2][k] : k \in 1..Len(df[2])} |-> <<"param", y>>]) # Bad
Uses == {<<"L", <<>>>>, <<"L", <<<<"Int", <<>>>>>>>>, <<"L", <<<<"A", <<>>>>>>>>, <<"L", <<<<"Int", <<>>>>, <<"A", <<>>>>>>>>, <<"L", <<<<"M", <<>>>>>>>>, <<"Array", <<<<"L", <<>>>>, <<"L", <<<<"U", <<>>>>>>>>>>>>}
OInit == d = 0 /\ t \in {<<m, l, u>> : m \in MDefs, l \in LDefs, u \in Uses}
OEmit ==
  LET m == t[1] l == t[2] s == ResS(t[3], <<m, l>>, [y \in {} |-> Bad])
      ok == DefOk(m, <<>>) /\ DefOk(l, <<m>>) /\ s # Bad
  IN PrintT("CASE\tsort\t(declare-sort A 0)(declare-sort U 0)(declare-sort P 2)" \o DefTxt(m) \o DefTxt(l) \o "(declare-fun c () " \o RawTxt(t[3]) \o ")\t" \o (IF ok THEN "ok\t" \o SortTxt(s) ELSE "bad\t"))
\* ------------------------------------------------------------ positions: <<where, needs, problem, proof>> around a term
Positions == {"assert", "assume", "clause", "args", "assign", "anchorarg", "deffun", "deffunbody", "letbind", "checkassuming", "ppassert"}
PosTerms == LeafSet \cup {O("=", <<x, x>>) : x \in LeafSet} \cup {O("not", <<x>>) : x \in LeafSet} \cup {<<"b", "forall", <<<<"v", UU>>>>, V("p", B)>>, <<"b", "lambda", <<<<"v", UU>>>>, V("p", B)>>, <<"a", V("f", Fun(<<UU>>, UU)), <<V("a", UU)>>>>, <<"a", V("f", Fun(<<UU>>, UU)), <<V("p", B)>>>>, <<"c", I, "1", "1">>, <<"c", Re, "1", "1.0">>}
PSorts == {B, UU, I, Re, BV(2)}
PInit == d = 0 /\ t \in {<<w, x, s>> : w \in Positions, x \in PosTerms, s \in PSorts}
PNeeds == IF t[1] \in {"assert", "assume", "clause", "checkassuming"} THEN B ELSE IF t[1] \in {"args", "letbind"} THEN SortOf(t[2]) ELSE t[3]
PProblem == CASE t[1] = "assert" -> "(assert " \o Txt(t[2]) \o ")"
  [] t[1] = "checkassuming" -> "(check-sat-assuming (p " \o Txt(t[2]) \o "))"
  [] t[1] \in {"deffun", "deffunbody"} -> (IF t[1] = "deffun" THEN "(define-fun d ((y Bool)) " ELSE "(define-fun d () ") \o SortTxt(t[3]) \o " " \o Txt(t[2]) \o ")"
  [] t[1] = "ppassert" -> "(define-fun-rec e ((y U)) " \o SortTxt(t[3]) \o " " \o Txt(t[2]) \o ")"
  [] OTHER -> ""
PProof == CASE t[1] = "assume" -> "(assume h " \o Txt(t[2]) \o ")"
  [] t[1] = "clause" -> "(step s (cl p " \o Txt(t[2]) \o ") :rule hole)"
  [] t[1] = "args" -> "(step s (cl p) :rule hole :args (" \o Txt(t[2]) \o "))"
  [] t[1] = "letbind" -> "(step s (cl (let ((y " \o Txt(t[2]) \o ")) p)) :rule hole)"
  [] t[1] = "assign" -> "(anchor :step s :args ((:= (y " \o SortTxt(t[3]) \o ") " \o Txt(t[2]) \o ")))(step s.s (cl p) :rule hole)(step s (cl p) :rule bind)"
  [] t[1] = "anchorarg" -> "(anchor :step s :args ((y " \o SortTxt(t[3]) \o ") (:= (yy " \o SortTxt(t[3]) \o ") y)))(step s.s (cl (= yy yy)) :rule hole :args (" \o Txt(t[2]) \o "))(step s (cl p) :rule bind)"
  [] t[1] \in {"deffun", "deffunbody"} -> "(step s (cl p) :rule hole)"
  [] OTHER -> "(step s (cl p) :rule hole)"
PBad == SortOf(t[2]) = Bad \/ (PNeeds # SortOf(t[2]) /\ t[1] # "anchorarg")
PEmit == (t[1] \in {"assert", "assume", "clause", "args", "letbind", "checkassuming"} => t[3] = B) =>
  PrintT("CASE\tpos\t" \o t[1] \o "\t" \o PProblem \o "\t" \o PProof \o "\t" \o (IF PBad THEN "bad" ELSE IF t[1] = "letbind" /\ SortOf(t[2])[1] = "fun" THEN "free" ELSE "ok"))
\* ------------------------------------------------------------ logics: how integer literals are read in the problem and in the proof
Logics == {"QF_LRA", "LRA", "QF_LIA", "QF_LIRA", "AUFLIRA", "QF_NRA", "QF_RDL", "QF_IDL", "ALL", "HORN", "QF_UFLRA", "UFNRA", ""}
RealOnly == {"QF_LRA", "LRA", "QF_NRA", "QF_RDL", "QF_UFLRA", "UFNRA"}
GInit == d = 0 /\ t \in Logics \X {"1", "1.0", "(+ 1 2)", "(+ 1 2.0)", "(- 1)", "-1", "(/ 1 2)"}
GReal(x) == t[1] \in RealOnly
GSort(x, real) == CASE x \in {"1", "(+ 1 2)", "(- 1)", "-1"} -> IF real THEN "Real" ELSE "Int" [] x = "1.0" -> "Real" [] OTHER -> IF real THEN "Real" ELSE "bad"
GEmit == PrintT("CASE\tlogic\t" \o t[1] \o "\t" \o t[2] \o "\t" \o GSort(t[2], t[1] \in RealOnly) \o "\t" \o GSort(t[2], FALSE))
\* ------------------------------------------------------------ scopes: a proof script, command by command
\* state t: <<stack of environments, emitted commands, depth, definitions, status, ids>>
Atoms == {<<"n", x>> : x \in {"x", "y", "a", "p", "c"}}
STerms == {<<"b", "forall", <<<<"a", UU>>>>, <<"=", <<"n", "a">>, <<"n", "c">>>>>>} \cup {<<"=", x, y>> : x \in Atoms, y \in {<<"n", "a">>, <<"n", "x">>}} \cup {<<"b", "forall", <<<<"x", UU>>>>, <<"=", <<"n", "x">>, <<"n", "y">>>>>>, <<"=", <<"n", "y">>, <<"n", "p">>>>, <<"=", <<"n", "c">>, <<"n", "c">>>>}
AVals == {<<"n", "a">>, <<"n", "p">>, <<"n", "x">>, <<"n", "y">>, <<"f", <<"n", "x">>>>, <<"n", "c">>}
AArgs == {<<"var", x, s>> : x \in {"x", "y"}, s \in {UU, B}} \cup {<<"asg", x, s, v>> : x \in {"x", "y", "a"}, s \in {UU}, v \in AVals} \cup {<<"asg", "x", B, v>> : v \in {<<"n", "p">>, <<"n", "a">>, <<"n", "x">>}}
AArgSeqs == {<<>>} \cup {<<x>> : x \in AArgs} \cup {<<x, y>> : x \in {<<"var", "x", UU>>, <<"var", "y", B>>, <<"asg", "x", UU, <<"n", "a">>>>, <<"asg", "y", UU, <<"f", <<"n", "x">>>>>>}, y \in AArgs}
RECURSIVE RTxt(_)
RTxt(x) == CASE x[1] = "n" -> x[2] [] x[1] = "f" -> "(f " \o RTxt(x[2]) \o ")" [] x[1] = "=" -> "(= " \o RTxt(x[2]) \o " " \o RTxt(x[3]) \o ")"
  [] x[1] = "b" -> "(" \o x[2] \o " (" \o Join([k \in 1..Len(x[3]) |-> "(" \o x[3][k][1] \o " " \o SortTxt(x[3][k][2]) \o ")"], " ") \o ") " \o RTxt(x[4]) \o ")"
\* the name c stands for the defined term, as a macro, unless it is not defined yet
RECURSIVE Exp(_, _)
Exp(x, def) == CASE x[1] = "v" -> IF x[2] = "c" /\ def # <<>> THEN def[1] ELSE x
  [] x[1] = "o" -> <<"o", x[2], [k \in 1..Len(x[3]) |-> Exp(x[3][k], def)]>>
  [] x[1] = "a" -> <<"a", x[2], [k \in 1..Len(x[3]) |-> Exp(x[3][k], def)]>>
  [] x[1] = "b" -> <<"b", x[2], x[3], Exp(x[4], IF def # <<>> /\ def[2] /\ \E k \in 1..Len(x[3]) : x[3][k][1] = "a" THEN <<<<"v", "c", Bad>>, FALSE>> ELSE def)>>
  [] OTHER -> x
\* "sh" is in the domain when the constant a is shadowed
Set(env, n, s) == [y \in DOMAIN env \cup {n} \cup (IF n = "a" THEN {"sh"} ELSE {}) |-> IF y = n THEN s ELSE IF y = "sh" THEN UU ELSE env[y]]
\* def: the defined term and whether its symbols may be captured; a definition by define-fun is closed, so a use of it where a symbol of it is shadowed is refused
RES(x, env, def) == Exp(Res(x, env), IF def # <<>> /\ def[2] /\ "sh" \in DOMAIN env THEN <<<<"v", "c", Bad>>, FALSE>> ELSE def)
TBad(x) == Undef(x) \/ SortOf(x) = Bad
RECURSIVE Args(_, _, _)
\* the environment after the arguments, the descriptions, whether all is well
Args(as, env, def) ==
  IF as = <<>> THEN <<env, <<>>, TRUE>>
  ELSE LET h == as[1] IN
    IF h[1] = "var" THEN LET r == Args(Tail(as), Set(env, h[2], h[3]), def) IN <<r[1], <<h[2] \o ":" \o SortTxt(h[3])>> \o r[2], r[3]>>
    ELSE LET v == RES(h[4], env, def)
             r == Args(Tail(as), Set(env, h[2], h[3]), def) IN
         <<r[1], <<h[2] \o ":" \o SortTxt(h[3]) \o ":=" \o (IF TBad(v) THEN "" ELSE Canon(v))>> \o r[2], r[3] /\ ~TBad(v) /\ SortOf(v) = h[3]>>
ArgTxt(h) == IF h[1] = "var" THEN "(" \o h[2] \o " " \o SortTxt(h[3]) \o ")" ELSE "(:= (" \o h[2] \o " " \o SortTxt(h[3]) \o ") " \o RTxt(h[4]) \o ")"
E0 == [y \in {"a", "p"} |-> IF y = "a" THEN UU ELSE B]
\* t = [envs, texts, descs, def, ok]
Depth == Len(t.envs) - 1
Env == t.envs[Len(t.envs)]
Ids(dp) == CASE dp = 0 -> "" [] dp = 1 -> "t1." [] OTHER -> "t1.t1."
AInit == d = 0 /\ t = [envs |-> <<E0>>, txt |-> <<>>, desc |-> <<>>, def |-> <<>>, ok |-> TRUE, last |-> ""]
AOpen == /\ Depth < 2
         /\ \E as \in (IF Depth = 0 THEN AArgSeqs ELSE {y \in AArgSeqs : Len(y) <= 1}) :
              LET r == Args(as, Env, t.def) IN
              t' = [t EXCEPT !.last = "open", !.envs = Append(@, r[1]), !.ok = @ /\ r[3],
                             !.txt = Append(@, "(anchor :step " \o Ids(Depth) \o "t1" \o (IF as = <<>> THEN "" ELSE " :args (" \o Join([k \in 1..Len(as) |-> ArgTxt(as[k])], " ") \o ")") \o ")"),
                             !.desc = Append(@, "anchor " \o Join(r[2], " "))]
AStepTerm(x) == RES(x, Env, t.def)
AStep == \E x \in STerms : LET v == AStepTerm(x) IN
           t' = [t EXCEPT !.last = "step", !.ok = @ /\ ~TBad(v) /\ SortOf(v) = B,
                          !.txt = Append(@, "(step " \o Ids(Depth) \o "s" \o ToString(d) \o " (cl " \o RTxt(x) \o ") :rule hole)"),
                          !.desc = Append(@, "step " \o (IF TBad(v) THEN "" ELSE Canon(v)))]
\* the last command of a subproof, read where its variables are still visible
AClose == /\ Depth > 0 /\ d > 1 /\ t.last = "step"
          /\ \E x \in STerms : LET v == AStepTerm(x) IN
           t' = [t EXCEPT !.last = "step", !.ok = @ /\ ~TBad(v) /\ SortOf(v) = B, !.envs = SubSeq(@, 1, Len(@) - 1),
                          !.txt = Append(@, "(step " \o Ids(Depth - 1) \o "t1 (cl " \o RTxt(x) \o ") :rule bind)"),
                          !.desc = Append(@, "step " \o (IF TBad(v) THEN "" ELSE Canon(v)))]
ANamed == /\ t.def = <<>>
          /\ \E x \in {<<"n", "a">>, <<"n", "x">>, <<"f", <<"n", "a">>>>} : LET v == AStepTerm(x) IN
              t' = [t EXCEPT !.last = "step", !.ok = @ /\ ~TBad(v), !.def = <<v, FALSE>>,
                             !.txt = Append(@, "(step " \o Ids(Depth) \o "s" \o ToString(d) \o " (cl (= (! " \o RTxt(x) \o " :named c) c)) :rule hole)"),
                             !.desc = Append(@, "step " \o (IF TBad(v) THEN "" ELSE Canon(O("=", <<v, v>>))))]
ADefine == /\ t.def = <<>> /\ Depth = 0
           /\ \E x \in {<<"n", "a">>, <<"n", "p">>} : LET v == AStepTerm(x) IN
              t' = [t EXCEPT !.last = "def", !.def = <<v, v[2] = "a">>, !.txt = Append(@, "(define-fun c () " \o SortTxt(SortOf(v)) \o " " \o RTxt(x) \o ")"), !.desc = Append(@, "")]
Clash == \E k \in 1..Len(t.envs) : "c" \in DOMAIN t.envs[k]
ANext == d < MaxN /\ t.ok /\ d' = d + 1 /\ (AOpen \/ AStep \/ AClose \/ ANamed \/ ADefine)
ATxt == Join(t.txt, "") \o (IF Depth = 2 THEN "(step t1.t1.z (cl p) :rule hole)(step t1.t1 (cl p) :rule bind)" ELSE "") \o (IF Depth >= 1 THEN "(step t1.z (cl p) :rule hole)(step t1 (cl p) :rule bind)" ELSE "")
AEmit == d > 0 => PrintT("CASE\tanch\t" \o ATxt \o "\t" \o (IF t.ok THEN "ok" ELSE "bad") \o "\t" \o Join(SelectSeq(t.desc, LAMBDA x : x # ""), " | "))
AConstraint == t.ok
Init == CASE Fam = "lit" -> LInit [] Fam = "sort" -> OInit [] Fam = "pos" -> PInit [] Fam = "logic" -> GInit [] Fam = "anch" -> AInit
Next == IF Fam = "anch" THEN ANext ELSE d < 0 /\ UNCHANGED vars
Emit == CASE Fam = "lit" -> LEmit [] Fam = "sort" -> OEmit [] Fam = "pos" -> PEmit [] Fam = "logic" -> GEmit [] Fam = "anch" -> AEmit
=============================================================================
