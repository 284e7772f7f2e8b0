-------------------------------- MODULE SameM --------------------------------
(* C30. pres: a step speaks twice of one term (or of two different ones, when it is wrong); each time
   the term may be presented in any of several ways that mean the same - in place, by a name given to
   it, by a definition of the problem or of the proof, by a let, with quoted symbols or other spacing -
   and any options that do not concern the document may be set. The verdict depends only on whether
   the two terms are the same.
   sess: documents are checked one after the other with one pool of terms, or one checker; each gets
   the verdict it has on its own. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, MaxOpt, MaxDocs
VARIABLE st

S(t, q, s, so, z) == [t |-> t, q |-> q, s |-> s, so |-> so, z |-> z]
\* pairs of different terms of one sort: plain, quoted, spaced out
Subj == <<
  <<S("(f a)", "(|f| |a|)", "(f ;; (b\\n a)", "U", "1"), S("(f b)", "(f |b|)", "( f\\tb )", "U", "2")>>,
  <<S("c", "|c|", "c ", "U", "1"), S("a", "|a|", " a", "U", "2")>>,
  <<S("(and p q)", "(and |p| |q|)", "(and\\n p\\n q)", "Bool", "1"), S("(and q p)", "(|and| q p)", "(and q p;\\n)", "Bool", "2")>>,
  <<S("(forall ((x U)) (P x))", "(forall ((|x| |U|)) (|P| x))", "(forall((x U))(P x))", "Bool", "1"), S("(exists ((x U)) (P x))", "(exists ((x |U|)) (P |x|))", "(exists ( (x U) ) (P x) )", "Bool", "2")>>,
  <<S("(+ i 1)", "(|+| |i| 1)", "(+ i ; one\\n 1)", "Int", "1"), S("(+ i 3)", "(+ |i| 3)", "( + i 3 )", "Int", "2")>>,
  <<S("(g (f a) (f (f b)))", "(|g| (f |a|) (|f| (f b)))", "(g(f a)(f(f b)))", "U", "1"), S("(g (f b) (f (f a)))", "(g (f |b|) (f (f |a|)))", "(g (f b)\\r\\n(f (f a)))", "U", "2")>>
>>
Ctxs(so) == CASE so = "U" -> {<<"(P ", ")">>, <<"(= ", " b)">>, <<"(forall ((x U)) (= (f x) ", "))">>, <<"(or q (not (P (f ", "))))">>}
              [] so = "Bool" -> {<<"(or r ", ")">>, <<"(= r ", ")">>, <<"(exists ((x U)) (and (P x) ", "))">>, <<"(ite ", " q r)">>}
              [] OTHER -> {<<"(< ", " 2)">>, <<"(= (* 2 ", ") i)">>}
Modes == {"plain", "quoted", "spaced", "named", "proof def", "proof fun", "problem def", "problem fun", "let", "let out", "let let", "let shadow", "attribute"}
Tmpls == {"refl", "assume", "resolution", "reordering", "subproof", "inst", "cong", "not_not", "la", "equiv", "contraction", "bind"}
Irrel == {"int_real", "strict", "no_hole_args", "apply_defs", "expand_lets", "stats", "ignore_unknown"}
Concl(x) == IF x = "resolution" THEN "" ELSE "(step fin (cl) :rule resolution :premises (h1 h2) :args (p true))"

Init == st = [ph |-> "start", k |-> 0, tm |-> "", cx |-> <<"", "">>, df |-> 0, m |-> <<>>, o |-> {}]
Start == st.ph = "start" /\ Part = "pres" /\ \E k \in 1..Len(Subj), tm \in Tmpls, df \in 0..2 :
           /\ (tm \in {"inst", "cong", "bind"} => Subj[k][1].so = "U") /\ (tm = "la" => Subj[k][1].so = "Int" /\ df # 1)
           /\ st' = [st EXCEPT !.ph = "ctx", !.k = k, !.tm = tm, !.df = df]
Ctx == st.ph = "ctx" /\ \E cx \in Ctxs(Subj[st.k][1].so) :
           /\ (st.tm = "inst" => cx[1] \in {"(P ", "(= "}) /\ (st.tm \in {"la"} => cx[1] = "(< ")
           /\ (st.tm \in {"cong", "bind"} => cx[1] = "(P ")
           /\ st' = [st EXCEPT !.ph = "mode", !.cx = cx]
Mode == st.ph = "mode" /\ Len(st.m) < 2 /\ \E x \in Modes : (st.tm = "assume" /\ st.m = <<>> => x \notin {"proof def", "proof fun"}) /\ st' = [st EXCEPT !.m = Append(@, x)]
Opt == st.ph = "mode" /\ Len(st.m) = 2 /\ Cardinality(st.o) < MaxOpt /\ \E x \in Irrel : st' = [st EXCEPT !.o = @ \cup {x}]
Done == st.ph = "mode" /\ Len(st.m) = 2 /\ st' = [st EXCEPT !.ph = "done"]

\* the term at place n
Sub(n) == Subj[st.k][IF st.df = n THEN 2 ELSE 1]
\* one occurrence of the term, given that the places before n have been written
Named1(n) == n = 1 \/ st.m[1] # "named" \/ Sub(1) # Sub(2)
Occ(n) ==
  LET u == Sub(n) m == st.m[n] IN
  CASE m = "plain" -> u.t
    [] m = "quoted" -> u.q
    [] m = "spaced" -> u.s
    [] m = "named" -> IF Named1(n) THEN "(! " \o u.t \o " :named nm" \o u.z \o ")" ELSE "nm" \o u.z
    [] m = "proof def" -> "d" \o u.z
    [] m = "proof fun" -> "(id " \o u.t \o ")"
    [] m = "problem def" -> "pd" \o u.z
    [] m = "problem fun" -> "(pid " \o u.t \o ")"
    [] m = "let" -> "(let ((z " \o u.t \o ")) z)"
    [] m = "let let" -> "(let ((z " \o u.t \o ")) (let ((z z) (w r)) z))"
    [] m = "let shadow" -> "(let ((a b) (z " \o u.t \o ")) z)"
    [] m = "attribute" -> "(! " \o u.t \o " :note (a b))"
    [] OTHER -> "z"
Ct(n) == IF st.m[n] = "let out" THEN "(let ((z " \o Sub(n).t \o ")) " \o st.cx[1] \o "z" \o st.cx[2] \o ")" ELSE st.cx[1] \o Occ(n) \o st.cx[2]
Bare(n) == IF st.m[n] = "let out" THEN Sub(n).t ELSE Occ(n)

\* premises of the problem and steps
Asserts == IF st.tm = "assume" THEN "(assert " \o Ct(1) \o ")" ELSE ""
Steps ==
  CASE st.tm = "refl" -> "(step t (cl (= " \o Ct(1) \o " " \o Ct(2) \o ")) :rule refl)"
    [] st.tm = "assume" -> "(assume t " \o Ct(2) \o ")"
    [] st.tm = "resolution" -> "(step t1 (cl " \o Ct(1) \o ") :rule hole)(step t2 (cl (not " \o Ct(2) \o ")) :rule hole)(step t (cl) :rule resolution :premises (t1 t2))"
    [] st.tm = "reordering" -> "(step t1 (cl " \o Ct(1) \o " r) :rule hole)(step t (cl r " \o Ct(2) \o ") :rule reordering :premises (t1))"
    [] st.tm = "contraction" -> "(step t1 (cl " \o Ct(1) \o " r r) :rule hole)(step t (cl " \o Ct(2) \o " r) :rule contraction :premises (t1))"
    [] st.tm = "subproof" -> "(anchor :step t)(assume t.a " \o Ct(1) \o ")(step t.t (cl r) :rule hole :premises (t.a))(step t (cl (not " \o Ct(2) \o ") r) :rule subproof :discharge (t.a))"
    [] st.tm = "inst" -> "(step t (cl (or (not (forall ((y U)) " \o st.cx[1] \o "y" \o st.cx[2] \o ")) " \o Ct(1) \o ")) :rule forall_inst :args (" \o Bare(2) \o "))"
    [] st.tm = "cong" -> "(step t1 (cl (= " \o Bare(1) \o " b)) :rule hole)(step t (cl (= (f " \o Bare(2) \o ") (f b))) :rule cong :premises (t1))"
    [] st.tm = "bind" -> "(anchor :step t :args ((y U) (:= (x U) y)))(step t.t (cl (= (g x " \o Bare(1) \o ") (g y " \o Bare(2) \o "))) :rule refl)" \o
                         "(step t (cl (= (forall ((x U)) (P (g x " \o "c))) (forall ((y U)) (P (g y c))))) :rule hole)"
    [] st.tm = "not_not" -> "(step t (cl (not (not (not " \o Ct(1) \o "))) " \o Ct(2) \o ") :rule not_not)"
    [] st.tm = "la" -> "(step t (cl (not " \o Ct(1) \o ") " \o Ct(2) \o ") :rule la_generic :args (1 1))"
    [] st.tm = "equiv" -> "(step t1 (cl (= " \o Ct(1) \o " r)) :rule hole)(step t (cl (not " \o Ct(2) \o ") r) :rule equiv1 :premises (t1))"
Holes == {"resolution", "reordering", "contraction", "subproof", "cong", "bind", "equiv"}
Verdict == IF st.df = 0 THEN (IF st.tm \in Holes THEN "holey" ELSE "valid") ELSE "invalid"
Uses(S0) == {st.m[n] : n \in 1..2} \cap S0 # {}
So == Subj[st.k][1].so
PDefs == IF ~Uses({"problem def", "problem fun"}) THEN ""
         ELSE "(define-fun pd1 () " \o So \o " " \o Subj[st.k][1].t \o ")(define-fun pd2 () " \o So \o " " \o Subj[st.k][2].t \o ")(define-fun pid ((x " \o So \o ")) " \o So \o " x)"
Defs == IF ~Uses({"proof def", "proof fun"}) THEN ""
        ELSE "(define-fun d1 () " \o So \o " " \o Subj[st.k][1].t \o ")(define-fun d2 () " \o So \o " " \o Subj[st.k][2].t \o ")(define-fun id ((x " \o So \o ")) " \o So \o " x)"
RECURSIVE SetS(_)
SetS(X) == IF X = {} THEN "" ELSE LET x == CHOOSE y \in X : TRUE IN x \o " " \o SetS(X \ {x})
Options == st.o \cup (IF Uses({"problem def", "problem fun"}) THEN {"apply_defs"} ELSE {}) \cup (IF Uses({"let", "let let", "let out", "let shadow"}) THEN {"expand_lets"} ELSE {})
Emit == IF st.ph # "done" THEN TRUE
        ELSE PrintT("CASE\t" \o Verdict \o "\t" \o PDefs \o "\t" \o Asserts \o "\t" \o Defs \o "\t" \o Steps \o "\t" \o Concl(st.tm) \o "\t" \o SetS(Options) \o "\t" \o st.tm \o "\t" \o st.m[1] \o "\t" \o st.m[2])

\* ------------------------------------------------------------ sessions
D(v, pb, pf) == [v |-> v, pb |-> pb, pf |-> pf]
PQ == "(declare-fun p () Bool)(declare-fun q () Bool)(assert p)(assert (not p))"
HH == "(assume h1 p)(assume h2 (not p))"
Fin == "(step fin (cl) :rule resolution :premises (h1 h2))"
DocK == <<
  D("valid", PQ, HH \o Fin),
  D("holey", PQ, HH \o "(step s (cl q) :rule hole)" \o Fin),
  D("invalid", PQ, HH),
  D("invalid", PQ, HH \o "(step s (cl q) :rule refl)" \o Fin),
  D("invalid", PQ, HH \o "(anchor :step s :args ((x Bool) (:= (y Bool) x)))(step s.t (cl (= q p)) :rule refl)(step s (cl (= q p)) :rule bind)" \o Fin),
  D("invalid", PQ, HH \o "(anchor :step s)(assume s.a q)(step s.t (cl) :rule hole)(step s (cl (not q)) :rule subproof :discharge (s.a))"),
  D("invalid", PQ, HH \o "(anchor :step s)(assume s.a q)(step s.t (cl p) :rule hole)(step s (cl (not p) p) :rule subproof :discharge (s.a))" \o Fin),
  D("invalid", "(declare-fun p () Bool)(assert p)", "(assume h1 p)(assume h2 (not p))" \o Fin),
  D("valid", "(declare-sort p 0)(declare-fun h () p)(assert (not (= h h)))", "(assume h1 (not (= h h)))(step t (cl (= h h)) :rule refl)(step fin (cl) :rule resolution :premises (h1 t))"),
  D("valid", "(declare-fun y () Bool)(declare-fun x () Bool)(assert (not (= (forall ((x Bool)) x) (forall ((y Bool)) y))))",
     "(assume h1 (not (= (forall ((x Bool)) x) (forall ((y Bool)) y))))(anchor :step t :args ((y Bool) (:= (x Bool) y)))(step t.t (cl (= x y)) :rule refl)(step t (cl (= (forall ((x Bool)) x) (forall ((y Bool)) y))) :rule bind)(step fin (cl) :rule resolution :premises (t h1))"),
  D("invalid", "(declare-fun y () Bool)(declare-fun x () Bool)(assert (not (= x y)))", "(assume h1 (not (= x y)))(step t (cl (= x y)) :rule refl)(step fin (cl) :rule resolution :premises (t h1))")
>>
SStart == st.ph = "start" /\ Part = "sess" /\ st' = [st EXCEPT !.ph = "sess"]
SDoc == st.ph = "sess" /\ Len(st.m) < MaxDocs /\ \E k \in 1..Len(DocK) : st' = [st EXCEPT !.m = Append(@, k)]
\* the checker's state between documents: nothing of what one document did is there for the next
RECURSIVE JoinS(_)
JoinS(s) == IF s = <<>> THEN "" ELSE "\t" \o s[1].v \o "\t" \o s[1].pb \o "\t" \o s[1].pf \o JoinS(Tail(s))
SEmit == IF st.ph # "sess" \/ Len(st.m) < 2 THEN TRUE ELSE PrintT("CASE" \o JoinS([n \in 1..Len(st.m) |-> DocK[st.m[n]]]))
Next == Start \/ Ctx \/ Mode \/ Opt \/ Done \/ SStart \/ SDoc
=============================================================================
