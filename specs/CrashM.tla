------------------------------- MODULE CrashM -------------------------------
(* C31: whatever it is given, the checker answers. Three machines write documents nobody would:
   "text"   a well-formed document, as a sequence of tokens, is edited token by token; the machine follows the
            parentheses, and a document whose parentheses do not match is owed a refusal;
   "shape"  one step whose clause, premises and arguments are well-sorted but of any shape, under every rule;
   "scope"  one subproof whose anchor, inner steps, closing rule and closing clause do not belong together.
   The answer owed is a verdict; every way of asking gives the same one. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Mode, MaxEdits, Part, Parts, Sim
VARIABLE st
RECURSIVE JoinT(_, _)
JoinT(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinT(Tail(ss), sep)

\* ------------------------------------------------------------ text
\* the first Pn tokens are the problem, the others the proof
Head1 == << "(", "declare-sort", "U", "0", ")", "(", "declare-fun", "p", "(", ")", "Bool", ")", "(", "declare-fun", "q", "(", ")", "Bool", ")", "(", "declare-fun", "a", "(", ")", "U", ")",
            "(", "declare-fun", "f", "(", "U", ")", "U", ")", "(", "declare-fun", "i", "(", ")", "Int", ")" >>
Main1 == << "(", "assert", "p", ")", "(", "assert", "(", "not", "p", ")", ")" >>
HH1 == << "(", "assume", "h1", "p", ")", "(", "assume", "h2", "(", "not", "p", ")", ")" >>
Fin1 == << "(", "step", "fin", "(", "cl", ")", ":rule", "resolution", ":premises", "(", "h1", "h2", ")", ":args", "(", "p", "true", ")", ")" >>
Docs == <<
  [pb |-> <<>>, pf |-> << "(", "anchor", ":step", "s", ":args", "(", "(", "y", "U", ")", "(", ":=", "(", "x", "U", ")", "y", ")", ")", ")",
          "(", "step", "s.t", "(", "cl", "(", "=", "(", "f", "x", ")", "(", "f", "y", ")", ")", ")", ":rule", "refl", ")",
          "(", "step", "s", "(", "cl", "(", "=", "(", "forall", "(", "(", "x", "U", ")", ")", "(", "=", "(", "f", "x", ")", "a", ")", ")", "(", "forall", "(", "(", "y", "U", ")", ")", "(", "=", "(", "f", "y", ")", "a", ")", ")", ")", ")",
          ":rule", "hole", ":args", "(", "1", "a", ")", ")" >>],
  [pb |-> <<>>, pf |-> << "(", "anchor", ":step", "s", ")", "(", "assume", "s.a", "q", ")", "(", "step", "s.t", "(", "cl", "q", ")", ":rule", "contraction", ":premises", "(", "s.a", ")", ")",
          "(", "step", "s", "(", "cl", "(", "not", "q", ")", "q", ")", ":rule", "subproof", ":discharge", "(", "s.a", ")", ")" >>],
  [pb |-> << "(", "define-fun", "m", "(", "(", "k", "Int", ")", ")", "Int", "(", "+", "k", "1", ")", ")", "(", "declare-datatypes", "(", ")", "(", ")", ")" >>,
   pf |-> << "(", "define-fun", "d", "(", "(", "k", "Int", ")", ")", "Bool", "(", "<", "k", "(", "m", "2", ")", ")", ")",
          "(", "step", "t", "(", "cl", "(", "=", "(", "d", "i", ")", "(", "d", "i", ")", ")", ")", ":rule", "eq_reflexive", ")" >>],
  [pb |-> << "(", "define-sort", "S", "(", "X", ")", "(", "Array", "Int", "X", ")", ")", "(", "declare-const", "ar", "(", "S", "Bool", ")", ")" >>,
   pf |-> << "(", "step", "t", "(", "cl", "(", "=", "(", "select", "ar", "i", ")", "(", "select", "(", "store", "ar", "i", "q", ")", "i", ")", ")", ")", ":rule", "hole", ")" >>],
  [pb |-> << "(", "set-logic", "ALL", ")", "(", "declare-fun", "b", "(", ")", "(", "_", "BitVec", "4", ")", ")" >>,
   pf |-> << "(", "step", "t", "(", "cl", "(", "=", "(", "(", "_", "extract", "3", "1", ")", "b", ")", "(", "bvadd", "#b001", "(", "_", "bv3", "3", ")", ")", ")", ")", ":rule", "hole", ")",
          "(", "step", "t2", "(", "cl", "(", "bvult", "#xa", "(", "concat", "#b11", "(", "(", "_", "extract", "1", "0", ")", "b", ")", ")", ")", ")", ":rule", "hole", ")" >>],
  [pb |-> << "(", "set-info", ":status", "unsat", ")", "(", "declare-fun", "s", "(", ")", "String", ")" >>,
   pf |-> << "(", "step", "t", "(", "cl", "(", "!", "(", "let", "(", "(", "z", "q", ")", "(", "w", "p", ")", ")", "(", "or", "z", "w", ")", ")", ":named", "nm", ")", ")", ":rule", "hole", ")",
          "(", "step", "t2", "(", "cl", "(", "not", "nm", ")", "(", "=", "s", "\\q;ab\\q;", ")", ")", ":rule", "hole", ":premises", "(", "t", "t", ")", ")" >>],
  [pb |-> << "(", "assert", "(", "<", "i", "0", ")", ")", "(", "assert", "(", ">=", "i", "(", "-", "2", ")", ")", ")" >>,
   pf |-> << "(", "step", "t", "(", "cl", "(", "not", "(", "<", "i", "0", ")", ")", "(", "<", "i", "1", ")", ")", ":rule", "la_generic", ":args", "(", "1", "1.0", ")", ")",
          "(", "step", "t2", "(", "cl", "(", "not", "(", "<", "i", "0", ")", ")", "(", "<", "i", "1", ")", ")", ":rule", "lia_generic", ")",
          "(", "step", "t3", "(", "cl", "(", "=", "(", "*", "2", "i", ")", "(", "+", "i", "i", ")", ")", ")", ":rule", "poly_simp", ")" >>],
  [pb |-> <<>>, pf |-> << "(", "step", "t", "(", "cl", "(", "or", "(", "not", "(", "forall", "(", "(", "x", "U", ")", "(", "y", "U", ")", ")", "(", "=", "x", "y", ")", ")", ")", "(", "=", "a", "(", "f", "a", ")", ")", ")", ")",
          ":rule", "forall_inst", ":args", "(", "a", "(", "f", "a", ")", ")", ")",
          "(", "step", "t2", "(", "cl", "(", "=", "(", "lambda", "(", "(", "x", "U", ")", ")", "x", ")", "(", "lambda", "(", "(", "x", "U", ")", ")", "(", "choice", "(", "(", "w", "U", ")", ")", "(", "=", "w", "x", ")", ")", ")", ")", ")", ":rule", "hole", ")" >>],
  [pb |-> <<>>, pf |-> << "(", "step", "t", "(", "cl", "(", "not", "p", ")", "q", ")", ":rule", "drup", ":premises", "(", "h1", "h2", ")", ":args", "(", "(", "cl", "q", ")", "(", "cl", "(", "not", "p", ")", "q", ")", "(", "@d", "(", "cl", "p", ")", ")", ")", ")",
          "(", "step", "t2", "(", "cl", "(", "=", "(", "and", "q", "true", ")", "q", ")", ")", ":rule", "rare_rewrite", ":args", "(", "\\q;rr\\q;", "q", ")", ")" >> ],
  [pb |-> << "(", "declare-fun", "u", "(", ")", "Real", ")" >>,
   pf |-> << "(", "step", "t", "(", "cl", "(", "=", "(", "/", "u", "2.0", ")", "(", "*", "0.5", "u", ")", ")", "(", "=", "(", "to_real", "1", ")", "(", "/", "2.0", "(", "-", "3.0", ")", ")", ")", ")", ":rule", "hole", ")",
          "(", "step", "t2", "(", "cl", "(", "=", "p", "(", "ite", "q", "p", "(", "xor", "p", "q", "q", ")", ")", ")", ")", ":rule", "hole", ":premises", "(", "t", ")", ")" >>]
>>
Odd == <<"(", ")", "|", "||", "\\q;", "\\q;\\q;", ";", "#b", "#x", "#", "-", "1", "-1", "1.5", "1/2", "0", "99999999999999999999", "_", "!", "as", "let", "forall", "choice", "cl", "p", "U", "Bool", "i", "a", "f", "=", "not", "and", ":named", ":args", ":premises", ":rule", ":discharge",
         ":=", "()", "(cl)", "(_ f 1)", "(f)", "(not)", "((x U))", "(= a a)", "(- 1)", "(+ i 1)", "(let ((v p)) v)", "(! p)", "(! p :named zz)", "(as a U)", "(_ bv1 2)", "((_ repeat 0) #b1)", "((_ extract 0 1) #b11)", "((_ rotate_left 5) #b11)", "(Array Int)", "(_ BitVec 0)", "(_ BitVec -1)", "rare-list", "true", "false",
         "resolution", "refl", "step", "assume", "anchor", "h1", "t", "s", "(rare-list p q)", "(forall () p)", "(lambda ((x U)) x)", "\\q;rr\\q;", "@p_1", "|a|", "(_ @bit_of 0)", "((_ @bit_of 9) #b11)", "(choice ((x U)) p)">>
\* files of rewrite rules, with a step that uses them; the tokens edited are those of the file
RareDocs == <<
  [r |-> << "(", "declare-rare-rule", "rr", "(", "(", "x", "Bool", ")", "(", "ys", "Bool", ":list", ")", ")", ":args", "(", "x", "ys", ")", ":conclusion", "(", "=", "(", "and", "x", "true", "ys", ")", "(", "and", "x", "ys", ")", ")", ")" >>, pf |-> "(step t (cl (= (and p true q q) (and p q q))) :rule rare_rewrite :args (\\q;rr\\q; p (rare-list q q)))"],
  [r |-> << "(", "declare-rare-rule", "rp", "(", "(", "x", "Int", ")", "(", "y", "Int", ")", ")", ":premises", "(", "(", "=", "x", "y", ")", ")", ":args", "(", "x", "y", ")", ":conclusion", "(", "=", "(", "<", "x", "y", ")", "false", ")", ")" >>, pf |-> "(step t0 (cl (= i 0)) :rule hole)(step t (cl (= (< i 0) false)) :rule rare_rewrite :premises (t0) :args (\\q;rp\\q; i 0))"],
  [r |-> << "(", "declare-rare-rule", "rt", "(", "(", "@T0", "Type", ")", "(", "x", "@T0", ")", "(", "y", "@T0", ")", ")", ":args", "(", "x", "y", ")", ":conclusion", "(", "=", "(", "=", "x", "y", ")", "(", "=", "y", "x", ")", ")", ")" >>, pf |-> "(step t (cl (= (= a (f a)) (= (f a) a))) :rule rare_rewrite :args (\\q;rt\\q; a (f a)))"],
  [r |-> << "(", "declare-rare-rule", "ro", "(", "(", "xs", "Bool", ":list", ")", "(", "b", "Bool", ")", "(", "zs", "Bool", ":list", ")", ")", ":args", "(", "xs", "b", "zs", ")", ":conclusion", "(", "=", "(", "or", "xs", "(", "or", "b", ")", "zs", ")", "(", "or", "xs", "b", "zs", ")", ")", ")", "(", "declare-rare-rule", "rq", "(", "(", "x", "U", ")", ")", ":args", "(", "x", ")", ":conclusion", "(", "=", "(", "forall", "(", "(", "y", "U", ")", ")", "(", "=", "x", "y", ")", ")", "(", "forall", "(", "(", "z", "U", ")", ")", "(", "=", "x", "z", ")", ")", ")", ")" >>, pf |-> "(step t (cl (= (or p (or q) q) (or p q q))) :rule rare_rewrite :args (\\q;ro\\q; (rare-list p) q (rare-list q)))"]
>>
RareOdd == <<"(", ")", "|", "\\q;", "#b1", "-1", "1.5", "_", "!", "as", "Type", "Bool", "U", "?T", "@T0", "x", "y", "ys", "zs", "a", "f", "=", "and", "or", "true", ":list", ":args", ":premises", ":conclusion", ":rule", "()", "(x Bool :list)", "(x)", "(= x x)", "(x y)", "(declare-rare-rule rr () :conclusion true)",
             "declare-rare-rule", "declare-fun", "(and)", "(or x)", "(- 1)", "(_ BitVec x)", "(_ BitVec 2)", "(Array Int U)", "(forall ((x U)) (= x x))", "(let ((v true)) v)", "(! x :named nn)", "(rare-list)", "rare-list", "(rare-list x y)", "rr", "rt", "(@T0 Type)", "(Seq x)", "(@@pair x y)", "$singleton_list">>
Quoting == {"|", "\\q;", ";"}
Text(d) == Head1 \o Docs[d].pb \o Main1 \o HH1 \o Docs[d].pf \o Fin1
PnOf(d) == Len(Head1) + Len(Docs[d].pb) + Len(Main1)
\* edits of the part of the text that belongs to the document; e = <<what, where, odd token>>
Lo(d) == IF Docs[d].pb = <<>> THEN PnOf(d) + 1 ELSE Len(Head1) + 1
Del(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
Ins(t, k, x) == SubSeq(t, 1, k - 1) \o <<x>> \o SubSeq(t, k, Len(t))
Apply(e, t) == CASE e[1] = "delete" -> Del(t, e[2])
                 [] e[1] = "double" -> Ins(t, e[2], t[e[2]])
                 [] e[1] = "swap" -> IF e[2] = Len(t) THEN t ELSE [t EXCEPT ![e[2]] = t[e[2] + 1], ![e[2] + 1] = t[e[2]]]
                 [] e[1] = "replace" -> [t EXCEPT ![e[2]] = Odd[e[3]]]
                 [] e[1] = "cut" -> SubSeq(t, 1, e[2])
                 [] OTHER -> Ins(t, e[2], Odd[e[3]])
Shift(e) == CASE e[1] = "delete" -> -1 [] e[1] \in {"double", "insert"} -> 1 [] OTHER -> 0
Edits(lo, hi) == {<<w, k, 1>> : w \in {"delete", "double", "swap"}, k \in lo..hi} \cup {<<w, k, x>> : w \in {"replace", "insert"}, k \in lo..hi, x \in 1..Len(Odd)} \cup {<<"cut", k, 1>> : k \in lo..hi}
Sel(e) == ((e[2] * 131 + e[3] * 17 + Len(e[1])) * 31) % Parts = Part
\* parentheses: -1 once one is closed that was not opened
RECURSIVE Depth(_, _)
Depth(t, d) == IF t = <<>> \/ d < 0 THEN d ELSE Depth(Tail(t), IF t[1] = "(" THEN d + 1 ELSE IF t[1] = ")" THEN d - 1 ELSE d)
Unbalanced(t, pn) == /\ \A k \in 1..Len(t) : t[k] \notin Quoting
                     /\ pn <= Len(t) /\ (Depth(SubSeq(t, 1, pn), 0) # 0 \/ Depth(SubSeq(t, pn + 1, Len(t)), 0) # 0)
TInit == \E d \in 1..Len(Docs) : st = [d |-> d, t |-> Text(d), pn |-> PnOf(d), n |-> 0]
TNext == /\ st.n < MaxEdits
         /\ \E e \in (IF Sim THEN {<<RandomElement({"delete", "double", "swap", "replace", "insert", "replace"}), RandomElement(Lo(st.d)..Len(st.t)), RandomElement(1..Len(Odd))>>}
                      ELSE Edits(Lo(st.d), Len(st.t))) : (Sim \/ Sel(e)) /\
              st' = [st EXCEPT !.t = Apply(e, @), !.n = @ + 1, !.pn = IF e[2] <= @ THEN @ + Shift(e) ELSE @]
\* in a cut document the problem may be all that is left
Pf(x) == IF x.pn >= Len(x.t) THEN <<>> ELSE SubSeq(x.t, x.pn + 1, Len(x.t))
Pb(x) == SubSeq(x.t, 1, IF x.pn > Len(x.t) THEN Len(x.t) ELSE x.pn)
TEmit == (Sim /\ st.n < MaxEdits) \/ PrintT("CASE\ttext\t" \o (IF st.n = 0 THEN "good" ELSE IF Unbalanced(st.t, st.pn) THEN "refuse" ELSE "any") \o "\t" \o JoinT(Pb(st), " ") \o "\t" \o JoinT(Pf(st), " "))

\* ------------------------------------------------------------ rare
REdits(n) == {<<w, k, 1>> : w \in {"delete", "double", "swap", "cut"}, k \in 1..n} \cup {<<w, k, x>> : w \in {"replace", "insert"}, k \in 1..n, x \in 1..Len(RareOdd)}
RApply(e, t) == IF e[1] = "replace" THEN [t EXCEPT ![e[2]] = RareOdd[e[3]]] ELSE IF e[1] = "insert" THEN Ins(t, e[2], RareOdd[e[3]]) ELSE Apply(e, t)
RInit == \E d \in 1..Len(RareDocs) : st = [d |-> d, t |-> RareDocs[d].r, n |-> 0]
RNext == /\ st.n < MaxEdits /\ st.t # <<>>
         /\ \E e \in (IF Sim THEN {<<RandomElement({"delete", "double", "swap", "replace", "insert", "replace"}), RandomElement(1..Len(st.t)), RandomElement(1..Len(RareOdd))>>} ELSE REdits(Len(st.t))) :
              (Sim \/ Sel(e)) /\ st' = [st EXCEPT !.t = RApply(e, @), !.n = @ + 1]
REmit == (Sim /\ st.n < MaxEdits) \/ PrintT("CASE\trare\t" \o (IF st.n = 0 THEN "good" ELSE IF (\A k \in 1..Len(st.t) : st.t[k] \notin Quoting) /\ Depth(st.t, 0) # 0 THEN "refuse" ELSE "any") \o "\t" \o JoinT(st.t, " ") \o "\t" \o RareDocs[st.d].pf)

\* ------------------------------------------------------------ shape
Leaf == [B |-> <<"p", "true", "false", "(not p)", "(= p q)">>, I |-> <<"i", "0", "1", "(- 2)", "(* 2 i)">>, R |-> <<"u", "1.5", "(/ 1 2)", "(- u)">>, U |-> <<"a", "(f a)">>, V |-> <<"A", "#b01", "(@bbterm p q)", "(bvnot A)">>,
         W |-> <<"C", "#b0110">>, S |-> <<"s", "\\q;\\q;", "\\q;ab\\q;", "(str.++ s \\q;a\\q;)">>, G |-> <<"r", "(str.to_re s)", "re.none", "(re.* r)">>]
\* the sort of each of the others is the last character
Sig == <<
  <<"not", "BB">>, <<"and", "BB">>, <<"and", "BBB">>, <<"or", "BBB">>, <<"xor", "BBB">>, <<"=>", "BBB">>, <<"=", "BBB">>, <<"distinct", "BBB">>, <<"ite", "BBBB">>, <<"and", "BBBB">>, <<"or", "BBBB">>,
  <<"=", "UUB">>, <<"distinct", "UUUB">>, <<"ite", "BUUU">>, <<"f", "UU">>,
  <<"+", "III">>, <<"-", "III">>, <<"-", "II">>, <<"*", "III">>, <<"div", "III">>, <<"mod", "III">>, <<"abs", "II">>, <<"<", "IIB">>, <<"<=", "IIB">>, <<">", "IIB">>, <<">=", "IIB">>, <<"=", "IIB">>, <<"+", "IIII">>, <<"<", "IIIB">>,
  <<"+", "RRR">>, <<"*", "RRR">>, <<"/", "RRR">>, <<"<", "RRB">>, <<">=", "RRB">>, <<"to_real", "IR">>, <<"to_int", "RI">>, <<"is_int", "RB">>,
  <<"bvadd", "VVV">>, <<"bvmul", "VVV">>, <<"bvand", "VVV">>, <<"bvand", "VVVV">>, <<"bvxor", "VVV">>, <<"bvneg", "VV">>, <<"bvnot", "VV">>, <<"bvult", "VVB">>, <<"bvslt", "VVB">>, <<"concat", "VVW">>, <<"=", "VVB">>, <<"bvudiv", "VVV">>, <<"bvshl", "VVV">>,
  <<"(_ zero_extend 2)", "VW">>, <<"(_ sign_extend 2)", "VW">>, <<"(_ repeat 2)", "VW">>, <<"(_ extract 2 1)", "WV">>, <<"(_ rotate_left 3)", "VV">>, <<"(_ @bit_of 1)", "VB">>, <<"(_ @int_of 1)", "VI">>, <<"ubv_to_int", "VI">>, <<"(_ int_to_bv 2)", "IV">>,
  <<"str.++", "SSS">>, <<"str.++", "SSSS">>, <<"str.len", "SI">>, <<"str.at", "SIS">>, <<"str.substr", "SIIS">>, <<"str.prefixof", "SSB">>, <<"str.contains", "SSB">>, <<"=", "SSB">>, <<"str.in_re", "SGB">>, <<"re.++", "GGG">>, <<"re.inter", "GGG">>, <<"re.union", "GGG">>, <<"re.opt", "GG">>, <<"str.replace", "SSSS">> >>
Sorts == {"B", "I", "R", "U", "V", "W", "S", "G"}
Ar == [op \in {"BB", "IB", "RB", "VB", "BBB"} |-> <<>>]
\* TLA+ strings cannot be indexed: arities and sorts are spelled out
Spell == [x \in {Sig[k][2] : k \in 1..Len(Sig)} |-> CHOOSE w \in UNION {[1..n -> Sorts] : n \in 2..4} : JoinT(w, "") = x]
Clauses0 == <<"p", "(not p)", "true", "false", "p q", "", "(forall ((x U)) p)", "(not (forall ((x U)) (= x a)))", "(= (exists ((x U)) (= x a)) (exists ((y U)) (= a y)))", "(= (let ((v p)) v) p)", "(or (not (forall ((x U)) (= x a))) (= a a))",
              "(= (lambda ((x U)) x) (lambda ((y U)) y))", "(= a (choice ((x U)) (= x a)))", "(@cl p q)", "(not (not p)) q", "(not (and p q)) p q", "(= (= p q) (= q p)) (not p)", "(or (= a (f a)) (not p))", "(=> p (and p q))", "(= (ite p a (f a)) a)", "(= (forall ((x U) (y U)) (or p (= x y))) (or p (forall ((x U)) (= x x))))",
              "(= (int.pow2 99999999999999) 1)", "(= (int.pow2 (- 1)) 0)", "(= (int.log2 0) (int.log2 (- 4)))", "(int.ispow2 (- 8))", "(= (int.pow2 3) 8)", "(= (int.pow2 99999999999999999999999) 0)",
              "(= (/ 1 0) (/ 1 0))", "(= (div 99999999999999999999 (- 99999999999999999999)) (- 1))", "(< 0.000000000000000000000001 99999999999999999999)", "(= (mod 0 0) 0)",
              "(= (bvshl C #xf) #x0)", "(= (bvlshr C #xf) #x0)", "(= (bvashr #x8 #xf) #xf)", "(= (bvsdiv C #x0) #xf)", "(= (bvsrem C #x0) C)", "(= (bvsmod #x8 #xf) #x0)", "(= (bvcomp A A) #b1)", "(= ((_ rotate_right 99) A) A)", "(= ((_ rotate_left 0) A) A)",
              "(= (sbv_to_int #b10) (- 2))", "(= ((_ int_to_bv 2) (- 1)) #b11)", "(= (@pbbterm 1 0) #b01)", "(= (@pbbterm 2 i) A)", "(= (@bv 7 2) #b11)", "(= (@bv i 2) A)", "(= (@bvsize A) 2)", "(= (bvult #b11 #b00) p)", "(= (concat A C) (concat A C))",
              "(= (str.indexof s \\q;a\\q; (- 1)) (- 1))", "(= (str.substr \\q;abc\\q; 99999999999999999999 1) \\q;\\q;)", "(= (str.substr \\q;abc\\q; (- 5) 99999999999999999999) s)", "(= (str.at \\q;\\q; 0) \\q;\\q;)", "(= (str.to_int \\q;-1\\q;) (- 1))", "(= (str.from_code 99999999) \\q;\\q;)", "(= (str.to_code \\q;\\u{2FFFF}\\q;) 196607)",
              "(= \\q;\\u{}\\q; \\q;\\u{110000}\\q;)", "(= \\q;\\u{d800}\\q; \\q;\\ud800\\q;)", "(= (str.replace_all s \\q;\\q; s) s)", "(= (str.len \\q;\\u{61}\\u0062c\\q;) 3)", "(str.in_re s ((_ re.^ 3) r))", "(str.in_re s ((_ re.loop 3 1) r))", "(str.in_re s (re.range \\q;ab\\q; \\q;\\q;))", "(str.in_re \\q;\\q; (re.comp re.all))", "(= (str.++ \\q;a\\q; s) (str.++ \\q;b\\q; s))",
              "(= (select ((as const (Array Int Int)) 0) 1) 0)", "(= (store ((as const (Array Int U)) a) 0 a) ((as const (Array Int U)) a))"
              >>
Args0 == <<"", "p", "1", "a", "(- 1)", "0", "2.5", "p true", "1 1", "(cl p)", "(@d (cl p))", "\\q;rr\\q; p", "s", "A", "(= p q)", "true", "i 0", "(rare-list p q)", "-1 9999999999999">>
Prems0 == <<"", "p", "self", "empty", "empty ;; p", "p ;; empty", "p q", "(not p) q ;; p (not q)", "self ;; p ;; q", "(or p q) q ;; (not q)", "(= a (f a))", "(not p) ;; p", "(and p q)", "(= s \\q;ab\\q;)", "(<= i 0) ;; (<= 1 i)", "self ;; self", "(str.in_re s r)", "(=> p q) ;; p">>
SInit == st = [ph |-> "op", t |-> "", so |-> "", c |-> "", h |-> 0]
Ops == st.ph = "op" /\ \E k \in 1..Len(Sig) : LET w == Spell[Sig[k][2]] m == Len(w) - 1 IN
         \E v \in [1..m -> 1..5] : (\A z \in 1..m : v[z] <= Len(Leaf[w[z]])) /\
           st' = [st EXCEPT !.ph = "clause", !.t = "(" \o Sig[k][1] \o " " \o JoinT([z \in 1..m |-> Leaf[w[z]][v[z]]], " ") \o ")", !.so = w[m + 1],
                            !.h = (k * 7 + FoldLeft(LAMBDA x, y : x * 5 + y, 0, v)) % 10007]
NoOp == st.ph = "op" /\ \E k \in 1..Len(Clauses0) : st' = [st EXCEPT !.ph = "rest", !.c = Clauses0[k], !.h = k]
ClauseOf == st.ph = "clause" /\ \E x \in 1..Len(Leaf[st.so]) :
  LET y == Leaf[st.so][x] IN
  \E c \in {<<"(= " \o st.t \o " " \o y \o ")", 1>>, <<"(= " \o y \o " " \o st.t \o ")", 2>>} \cup (IF x > 1 THEN {} ELSE {<<"(not (= " \o st.t \o " " \o st.t \o "))", 3>>} \cup
     (IF st.so = "B" THEN {<<st.t, 4>>, <<"(not " \o st.t \o ")", 5>>, <<st.t \o " (not p)", 6>>, <<"(not " \o st.t \o ") p q", 7>>, <<"(= (= " \o st.t \o " q) p)", 8>>} ELSE {})) :
     st' = [st EXCEPT !.ph = "rest", !.c = c[1], !.h = (@ * 31 + x * 7 + c[2]) % 10007]
Rest == st.ph = "rest" /\ \E k \in 1..Len(Args0), m \in 1..Len(Prems0) : LET P == IF st.so = "" THEN 1 + Parts \div 50 ELSE Parts IN
          ((st.so = "" /\ k = 1 /\ m = 1) \/ (st.h * 13 + k * 101 + m * 17) % P = Part % P) /\
          st' = [st EXCEPT !.ph = "done", !.so = Args0[k], !.t = Prems0[m]]
SNext == Ops \/ NoOp \/ ClauseOf \/ Rest
SEmit == st.ph # "done" \/ PrintT("CASE\tshape\t" \o st.t \o "\t" \o st.c \o "\t" \o st.so)

\* ------------------------------------------------------------ scope
Anchors == <<"", ":args ()", ":args ((x U))", ":args ((x U) (y U))", ":args ((:= (x U) a))", ":args ((y U) (:= (x U) y))", ":args ((:= (x U) (choice ((x U)) (= x a))))", ":args ((:= (x U) a) (:= (y U) b))", ":args ((x Bool) (:= (p Bool) x))",
             ":args ((:= (x U) x))", ":args ((x U) (:= (x U) (f x)))", ":args ((:= x a))", ":args ((:= (x Int) 1))", ":args ((k Int) (x U) (:= (y U) x))", ":args ((x U) (x U))", ":args ((:= (a U) b))">>
Inner == <<"(step s.t (cl (= x y)) :rule refl)", "(step s.t (cl (= p p)) :rule refl)", "(step s.t (cl) :rule hole)", "(step s.t (cl p q) :rule hole)", "(assume s.a q)(step s.t (cl (= q p)) :rule hole)", "(step s.t (cl (= (= x a) (= y a))) :rule hole)",
           "(step s.t (cl p) :rule hole)", "(step s.t (cl (= a a)) :rule refl)", "(assume s.a (= a b))", "", "(step s.t0 (cl q) :rule hole)(step s.t (cl (= (and p q) q)) :rule hole :premises (s.t0))", "(step s.t (cl (= (=> (= x a) p) (=> (= a a) p))) :rule hole)"
           >>
Closes == <<"subproof", "bind", "let", "bind_let", "onepoint", "sko_ex", "sko_forall", "hole", "refl", "cong", "resolution", "qnt_simplify", "nothing">>
EndCl == <<"", "p", "(= p p)", "(= (forall ((x U)) (= x a)) (forall ((y U)) (= y a)))", "(= (forall ((x U)) (= x a)) (= a a))", "(= (exists ((x U)) (= x a)) (= a a))", "(= (let ((x a)) (= x a)) (= a a))", "(= (let ((x a)) x) (let ((y b)) y))", "(not q) (= q p)", "(not q) p",
           "(= (lambda ((x U)) x) (lambda ((y U)) y))", "(= (choice ((x U)) (= x a)) (choice ((y U)) (= y a)))", "(forall ((x U)) p)", "(= (forall ((x U)) (=> (= x a) p)) (=> (= a a) p))", "(= (forall ((x U)) (=> (= x a) p)) p)", "(= (forall ((x U) (y U)) (= x y)) (forall ((y U) (x U)) (= x y)))",
           "p q", "(= (forall ((p Bool)) p) (forall ((x Bool)) x))", "(= (let ((x a) (y b)) (= x y)) (= a b))">>
Extras == <<"", ":premises (h1)", ":discharge (s.a)", ":args (a)", ":premises (s.t)">>
CInit == st = [ph |-> "anchor", a |-> "", i |-> "", e |-> ""]
CAnchor == st.ph = "anchor" /\ \E k \in 1..Len(Anchors) : st' = [st EXCEPT !.ph = "inner", !.a = Anchors[k]]
CInner == st.ph = "inner" /\ \E k \in 1..Len(Inner) : st' = [st EXCEPT !.ph = "close", !.i = Inner[k]]
CClose == st.ph = "close" /\ \E r \in 1..Len(Closes), c \in 1..Len(EndCl), x \in 1..Len(Extras) :
            (r * 101 + c * 13 + x * 7 + Len(st.a) + Len(st.i)) % Parts = Part /\
            st' = [st EXCEPT !.ph = "done", !.e = IF Closes[r] = "nothing" THEN "" ELSE "(step s (cl " \o EndCl[c] \o ") :rule " \o Closes[r] \o " " \o Extras[x] \o ")"]
CNext == CAnchor \/ CInner \/ CClose
\* an anchor that is never closed is owed a refusal
CEmit == st.ph # "done" \/ PrintT("CASE\tscope\t" \o (IF st.e = "" \/ st.i = "" THEN "refuse" ELSE "any") \o "\t(anchor :step s " \o st.a \o ")" \o st.i \o st.e)
=============================================================================
