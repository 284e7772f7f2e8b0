-------------------------------- MODULE LiaM --------------------------------
(* Filling a lia_generic step, or a step of an unsupported simplification rule, with the proof of an
   external solver. The solver is sent the negation of every literal of the step's clause, and
   answers with anything at all: a verdict line, a proof, an exit status. The step is replaced
   exactly when the answer is "unsat" followed by a proof that checks and whose assumptions are among
   the formulas that were sent; any other answer leaves the step as it was. *)
EXTENDS Terms
CONSTANTS MaxLits, Wide
VARIABLE st

\* literals of a clause, with the proof of each that can be proven alone
p == L("p") q == L("q") r == L("r")
fa == T("f", <<T("f", <<L("a")>>)>>)
All1 == All(<<<<"x", "U">>>>, T("P", <<L("x")>>))
Lits == <<
  [t |-> p, k |-> ""],
  [t |-> Not(p), k |-> ""],
  [t |-> Not(q), k |-> ""],
  [t |-> Eq(L("a"), L("b")), k |-> ""],
  [t |-> TT, k |-> "true"],
  [t |-> Eq(fa, fa), k |-> "refl"],
  [t |-> Eq(T("f", <<L("p_0")>>), T("f", <<L("p_0")>>)), k |-> "refl"],
  [t |-> T("<=", <<L("i"), T("+", <<L("i"), N(1)>>)>>), k |-> "la"],
  [t |-> T("<=", <<NumLit(-1), N(0)>>), k |-> "la"],
  [t |-> Or(<<Not(All1), T("P", <<L("a")>>)>>), k |-> "inst"],
  [t |-> Imp(q, q), k |-> "sub"],
  [t |-> Exi(<<<<"x", "U">>>>, Eq(L("x"), L("|a b|"))), k |-> ""]
>>
\* how a literal reads when it comes back from the solver's input (constants are not negative there)
RECURSIVE Strict(_)
Strict(t) == IF t.o = "#lit" /\ t.n < 0 THEN T("-", <<NumLit(-t.n)>>) ELSE [t EXCEPT !.a = [m \in 1..Len(t.a) |-> Strict(t.a[m])]]
LitT(m) == Lits[m].t
Sent(m) == Not(Strict(LitT(m)))

\* a proof of the literal, named with prefix x
Lemma(m, x) ==
  LET t == Str(Strict(LitT(m))) c == "(cl " \o t \o ")" IN
  CASE Lits[m].k = "true" -> "(step " \o x \o " " \o c \o " :rule true)"
    [] Lits[m].k = "refl" -> "(step " \o x \o " " \o c \o " :rule refl)"
    [] Lits[m].k = "la" -> "(step " \o x \o " " \o c \o " :rule la_generic :args (1))"
    [] Lits[m].k = "inst" -> "(step " \o x \o " " \o c \o " :rule forall_inst :args (a))"
    [] Lits[m].k = "sub" ->
         "(anchor :step " \o x \o "s)(assume " \o x \o "s.a0 q)(step " \o x \o "s.t1 (cl q) :rule reordering :premises (" \o x \o "s.a0))" \o
         "(step " \o x \o "s (cl (not q) q) :rule subproof :discharge (" \o x \o "s.a0))" \o
         "(step " \o x \o "n1 (cl (=> q q) q) :rule implies_neg1)(step " \o x \o "n2 (cl (=> q q) (not q)) :rule implies_neg2)" \o
         "(step " \o x \o " (cl (=> q q)) :rule resolution :premises (" \o x \o "n1 " \o x \o "n2))"

Idx(c) == 1..Len(c)
\* ways to refute what was sent: a literal with a proof of its own, or two opposite literals
Cores(c) == {<<m>> : m \in {z \in Idx(c) : Lits[c[z]].k # ""}} \cup
            {<<m, z>> : m \in {y \in Idx(c) : c[y] = 1}, z \in {y \in Idx(c) : c[y] = 2}}
AsmS(nm, t) == "(assume " \o nm \o " " \o Str(t) \o ")"
AName(m) == "a" \o ToString(m)
\* the assumptions of the answer: those of the core only, all, or all in reverse
Asms(c, core, how) ==
  LET ms == CASE how = "all" -> [m \in 1..Len(c) |-> m]
              [] how = "rev" -> [m \in 1..Len(c) |-> Len(c) + 1 - m]
              [] OTHER -> core
  IN Join([m \in 1..Len(ms) |-> AsmS(AName(ms[m]), Sent(c[ms[m]]))], "")
Close(c, core) == IF Len(core) = 1 THEN Lemma(c[core[1]], "x1") \o "(step x2 (cl) :rule resolution :premises (x1 " \o AName(core[1]) \o "))"
                  ELSE "(step x2 (cl) :rule resolution :premises (" \o AName(core[1]) \o " " \o AName(core[2]) \o "))"
Good(c, core, how) == Asms(c, core, how) \o Close(c, core)

\* answers, as [out: text after the first line, first: first line, rc, eat: whether the input is read, ok]
A0 == [first |-> "unsat", out |-> "", rc |-> "0", eat |-> "1", ok |-> FALSE, n |-> ""]
Faults(c) ==
  LET g == IF Cores(c) = {} THEN "(step x2 (cl) :rule hole)" ELSE Good(c, CHOOSE z \in Cores(c) : TRUE, "all")
      hasC == Cores(c) # {} IN
  {[A0 EXCEPT !.first = "sat", !.out = g, !.n = "sat"],
   [A0 EXCEPT !.first = "unknown", !.n = "unknown"],
   [A0 EXCEPT !.first = "", !.n = "no output"],
   [A0 EXCEPT !.first = "", !.out = "unsat " \o g, !.n = "blank line first"],
   [A0 EXCEPT !.first = "(error no)", !.out = g, !.n = "error"],
   [A0 EXCEPT !.first = "unsatisfiable", !.out = g, !.n = "other word"],
   [A0 EXCEPT !.out = "", !.n = "no proof"],
   [A0 EXCEPT !.out = "(step x2 (cl", !.n = "cut short"],
   [A0 EXCEPT !.out = g \o ")", !.n = "extra parenthesis"],
   [A0 EXCEPT !.out = "(step x2 (cl zz) :rule hole)" \o g, !.n = "undeclared symbol"],
   [A0 EXCEPT !.out = "(step x2 (cl true) :rule true)", !.n = "no empty clause"],
   [A0 EXCEPT !.out = "(assume h0 r)(step x1 (cl (not r)) :rule hole)(step x2 (cl) :rule resolution :premises (h0 x1))", !.n = "assumes what was not sent"],
   [A0 EXCEPT !.out = "(assume h0 false)(step x1 (cl (not false)) :rule false)(step x2 (cl) :rule resolution :premises (h0 x1))", !.n = "assumes false"],
   [A0 EXCEPT !.out = "(assume h0 true)(step x2 (cl) :rule resolution :premises (h0))", !.n = "assumes true"],
   [A0 EXCEPT !.out = "(step x2 (cl) :rule resolution :premises (x9))", !.n = "unknown premise"],
   [A0 EXCEPT !.out = Asms(c, <<>>, "all") \o "(step x2 (cl) :rule cong :premises (a1))", !.n = "wrong step"],
   [A0 EXCEPT !.out = Asms(c, <<>>, "all") \o "(step x2 (cl) :rule contraction :premises (a1))", !.n = "wrong rule"],
   [A0 EXCEPT !.out = "(anchor :step x2)(step x2.t1 (cl) :rule hole)", !.n = "open subproof"],
   [A0 EXCEPT !.out = g, !.rc = "1", !.n = "fails"],
   [A0 EXCEPT !.out = g, !.rc = "timeout", !.n = "times out"],
   [A0 EXCEPT !.out = g, !.rc = "kill", !.n = "is killed"],
   [A0 EXCEPT !.out = g, !.rc = "absent", !.n = "is not there"],
   [A0 EXCEPT !.first = "sat", !.eat = "0", !.n = "does not read"],
   [A0 EXCEPT !.out = "@bytes@", !.n = "not text"]}
\* answers that use rules the checker does not know, or the assumptions differently: no claim but that the result is right
Loose(c) ==
  {[A0 EXCEPT !.out = "(step x2 (cl) :rule hole)", !.n = "loose: hole"],
   [A0 EXCEPT !.out = Asms(c, <<>>, "all") \o "(step x2 (cl) :rule strange :premises (a1))", !.n = "loose: unknown rule"],
   [A0 EXCEPT !.out = "(anchor :step x1)(assume x1.a0 r)(step x1.t1 (cl) :rule hole)(step x1 (cl (not r)) :rule subproof :discharge (x1.a0))(step x2 (cl) :rule hole :premises (x1))", !.n = "loose: empty clause inside first"]}
  \cup {[A0 EXCEPT !.out = AsmS("b1", Sent(c[z])) \o AsmS("a1", Sent(c[z])) \o Lemma(c[z], "x1") \o
           "(step y1 (cl " \o Str(Sent(c[z])) \o " r) :rule weakening :premises (b1))(step y2 (cl r) :rule resolution :premises (y1 x1))" \o
           "(step y3 (cl " \o Str(Sent(c[z])) \o " (not r)) :rule weakening :premises (a1))(step y4 (cl (not r)) :rule resolution :premises (y3 x1))" \o
           "(step x2 (cl) :rule resolution :premises (y2 y4))", !.n = "loose: both copies of an assumption used"] : z \in {y \in Idx(c) : Lits[c[y]].k # ""}}
  \cup {[A0 EXCEPT !.out = AsmS("h0", Not(Eq(L("b"), L("a")))) \o "(step x1 (cl (= b a)) :rule hole)(step x2 (cl) :rule resolution :premises (h0 x1))", !.n = "loose: equality turned"] : z \in {y \in Idx(c) : c[y] = 4}}
Goods(c) == UNION {
   {[A0 EXCEPT !.ok = TRUE, !.out = Good(c, core, how), !.n = "proof from " \o how] : how \in {"core", "all", "rev"}} \cup
   {[A0 EXCEPT !.ok = TRUE, !.out = Good(c, core, "all") \o "(step x3 (cl true) :rule true)", !.n = "more steps after"],
    [A0 EXCEPT !.ok = TRUE, !.out = Good(c, core, "core") \o "(step x3 (cl) :rule reordering :premises (x2))", !.n = "empty clause twice"],
    [A0 EXCEPT !.ok = TRUE, !.first = "unsat  ", !.out = Good(c, core, "core"), !.n = "spaces after the verdict"],
    [A0 EXCEPT !.ok = TRUE, !.out = "(define-fun qq () Bool q)(step x0 (cl (= qq qq)) :rule refl)" \o Good(c, core, "all"), !.n = "definitions"],
    [A0 EXCEPT !.ok = TRUE, !.out = "(step x0 (cl true) :rule true)" \o AsmS("b1", Sent(c[core[1]])) \o Good(c, core, "all"), !.n = "assumes twice"]}
   : core \in Cores(c)}

Kinds == {"lia_generic", "all_simplify", "rare_rewrite"}
Init == st = [ph |-> "start", c |-> <<>>, kind |-> "", sub |-> FALSE, ans |-> A0]
Kind == st.ph = "start" /\ \E k \in Kinds, b \in BOOLEAN : st' = [st EXCEPT !.ph = "clause", !.kind = k, !.sub = b]
More == st.ph = "clause" /\ Len(st.c) < MaxLits /\ \E m \in 1..Len(Lits) : st' = [st EXCEPT !.c = Append(@, m)]
Ask == st.ph = "clause" /\ st.c # <<>> /\ st.c[1] \in 1..Len(Lits)
       /\ (Len(st.c) > 1 => \E m \in Idx(st.c) : Lits[st.c[m]].k = "" \/ Len(st.c) = 2)
       /\ \E x \in Goods(st.c) \cup (IF Len(st.c) = 1 \/ (Wide /\ Len(st.c) = 2) THEN Faults(st.c) \cup Loose(st.c) ELSE {}) : st' = [st EXCEPT !.ph = "asked", !.ans = x]
Next == Kind \/ More \/ Ask

\* a refusal of a rule with premises from the start: hole fillings must not contain holes
Expect == IF st.ans.ok THEN (IF \E m \in Idx(st.c) : Strict(LitT(st.c[m])) # LitT(st.c[m]) THEN "any" ELSE "replace")
          ELSE IF st.ans.n \in {x.n : x \in Faults(st.c)} THEN "keep" ELSE "any"
Emit == IF st.ph # "asked" THEN TRUE
        ELSE PrintT("CASE\t" \o Expect \o "\t" \o st.kind \o "\t" \o (IF st.sub THEN "1" ELSE "0") \o "\t" \o
                    Join([m \in 1..Len(st.c) |-> Str(LitT(st.c[m]))], "\t;") \o "\t#\t" \o
                    Join([m \in 1..Len(st.c) |-> Str(Strict(LitT(st.c[m])))], "\t;") \o "\t#\t" \o
                    st.ans.first \o "\t" \o st.ans.out \o "\t" \o st.ans.rc \o "\t" \o st.ans.eat \o "\t" \o st.ans.n)
=============================================================================
