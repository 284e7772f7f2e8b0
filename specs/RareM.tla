------------------------------- MODULE RareM -------------------------------
(* User-defined rewrite rules (RARE). A rule has parameters, some of them lists, premises and a
   conclusion; a step names a rule and gives a term, or a list of terms, for each parameter. What the
   step proves is the instance of the rule: the parameters replaced all at once and without capture,
   the lists spliced into their operators, an empty disjunction or conjunction standing for its
   neutral element. Every rule of the catalogue is valid for all its instances (checked here). *)
EXTENDS Sem
SA == INSTANCE SemA
CONSTANTS Part, Parts, MaxEdits
VARIABLE st

RL(es) == T("rare-list", es)
P1(x, so) == [x |-> x, so |-> so, ls |-> FALSE, es |-> so]
PL(x, so) == [x |-> x, so |-> so, ls |-> TRUE, es |-> so]
PG(x, es) == [x |-> x, so |-> "@T0", ls |-> FALSE, es |-> es]    \* polymorphic, tried at one sort
PGL(x, es) == [x |-> x, so |-> "@T0", ls |-> TRUE, es |-> es]
Ru(n, ps, prem, con) == [n |-> n, ps |-> ps, prem |-> prem, con |-> con]

t1 == L("t1") t2 == L("t2") t3 == L("t3") xs == L("xs") ys == L("ys") zs == L("zs") x1 == L("x1") y1 == L("y1")
p == L("p") q == L("q") a == L("a")
Catalogue == <<
  Ru("eq-refl", <<PG("t1", "U")>>, <<>>, Eq(Eq(t1, t1), TT)),
  Ru("eq-symm", <<PG("t1", "U"), PG("t2", "U")>>, <<>>, Eq(Eq(t1, t2), Eq(t2, t1))),
  Ru("names-clash", <<P1("p", "Bool"), P1("q", "Bool")>>, <<>>, Eq(Imp(p, q), Or(<<Not(p), q>>))),
  Ru("name-of-func", <<P1("a", "U"), P1("b", "U")>>, <<>>, Eq(T("distinct", <<a, L("b")>>), Not(Eq(L("b"), a)))),
  Ru("double-not", <<P1("x1", "Bool")>>, <<>>, Eq(Not(Not(x1)), x1)),
  Ru("or-true", <<PL("xs", "Bool"), PL("ys", "Bool")>>, <<>>, Eq(Or(<<xs, TT, ys>>), TT)),
  Ru("and-false", <<PGL("xs", "Bool"), PGL("ys", "Bool")>>, <<>>, Eq(And(<<xs, FF, ys>>), FF)),
  Ru("or-flatten", <<PL("xs", "Bool"), P1("x1", "Bool"), PL("ys", "Bool"), PL("zs", "Bool")>>, <<>>,
     Eq(Or(<<xs, Or(<<x1, ys>>), zs>>), Or(<<xs, x1, ys, zs>>))),
  Ru("and-flatten", <<PGL("xs", "Bool"), P1("x1", "Bool"), PL("ys", "Bool"), PGL("zs", "Bool")>>, <<>>,
     Eq(And(<<xs, And(<<x1, ys>>), zs>>), And(<<xs, x1, ys, zs>>))),
  Ru("or-conf", <<PL("xs", "Bool"), P1("x1", "Bool"), PL("ys", "Bool"), PL("zs", "Bool")>>, <<>>,
     Eq(Or(<<xs, x1, ys, Not(x1), zs>>), TT)),
  Ru("or-split", <<P1("x1", "Bool"), PGL("ys", "Bool")>>, <<>>, Eq(Or(<<x1, Or(<<ys>>)>>), Or(<<x1, ys>>))),
  Ru("and-split", <<P1("x1", "Bool"), PGL("ys", "Bool")>>, <<>>, Eq(And(<<x1, And(<<ys>>)>>), And(<<x1, ys>>))),
  Ru("or-lists", <<PL("xs", "Bool"), PL("ys", "Bool")>>, <<>>, Eq(Or(<<xs, ys>>), Or(<<Or(<<xs>>), Or(<<ys>>)>>))),
  Ru("and-lists", <<PGL("xs", "Bool"), PGL("ys", "Bool")>>, <<>>, Eq(And(<<xs, ys>>), And(<<And(<<ys>>), And(<<xs>>)>>))),
  Ru("de-morgan", <<P1("x1", "Bool"), P1("y1", "Bool"), PL("zs", "Bool")>>, <<>>,
     Eq(Not(Or(<<x1, y1, zs>>)), And(<<Not(x1), Not(Or(<<y1, zs>>))>>))),
  Ru("imp-and", <<PL("xs", "Bool"), P1("x1", "Bool")>>, <<>>, Eq(Imp(And(<<xs>>), x1), Or(<<Not(And(<<xs>>)), x1>>))),
  Ru("ite-true", <<PG("t1", "U"), PG("t2", "U")>>, <<>>, Eq(Ite(TT, t1, t2), t1)),
  Ru("ite-neg", <<P1("x1", "Bool"), PG("t1", "U"), PG("t2", "U")>>, <<>>, Eq(Ite(Not(x1), t1, t2), Ite(x1, t2, t1))),
  Ru("known-true", <<P1("x1", "Bool"), P1("y1", "Bool")>>, <<Eq(x1, TT)>>, Eq(And(<<x1, y1>>), y1)),
  Ru("trans", <<PG("t1", "U"), PG("t2", "U"), PG("t3", "U")>>, <<Eq(t1, t2), Eq(t2, t3)>>, Eq(Eq(t1, t3), TT)),
  Ru("known-or", <<PL("xs", "Bool"), P1("x1", "Bool")>>, <<Eq(Or(<<xs, x1>>), FF)>>, Eq(x1, FF)),
  Ru("vacuous", <<P1("x1", "Bool")>>, <<>>, Eq(Exi(<<<<"a", "U">>>>, x1), x1)),
  Ru("alpha", <<P1("t1", "U"), P1("t2", "U")>>, <<>>, Eq(Exi(<<<<"b", "U">>>>, And(<<Eq(L("b"), t1), Eq(L("b"), t2)>>)), Eq(t1, t2))),
  Ru("lt-refl", <<P1("t1", "Int")>>, <<>>, Eq(T("<", <<t1, t1>>), FF)),
  Ru("plus-zero", <<PL("xs", "Int"), PL("ys", "Int"), P1("t1", "Int"), P1("t2", "Int")>>, <<>>,
     Eq(T("+", <<xs, t1, N(0), t2, ys>>), T("+", <<xs, t1, t2, ys>>))),
  Ru("plus-flatten", <<PGL("xs", "Int"), P1("t1", "Int"), P1("t2", "Int"), PGL("ys", "Int")>>, <<>>,
     Eq(T("+", <<xs, T("+", <<t1, t2>>), ys>>), T("+", <<xs, t1, t2, ys>>)))
>>
RuleText(r) ==
  "(declare-rare-rule " \o r.n \o " (" \o (IF \E m \in 1..Len(r.ps) : r.ps[m].so = "@T0" THEN "(@T0 Type) " ELSE "") \o
  Join([m \in 1..Len(r.ps) |-> "(" \o r.ps[m].x \o " " \o r.ps[m].so \o (IF r.ps[m].ls THEN " :list)" ELSE ")")], " ") \o
  ") :args (" \o Join([m \in 1..Len(r.ps) |-> r.ps[m].x], " ") \o ") :premises (" \o Join(Strs(r.prem), " ") \o
  ") :conclusion " \o Str(r.con) \o ")"
File == Join([m \in 1..Len(Catalogue) |-> RuleText(Catalogue[m])], " ")

(* Instances *)
Names(r) == {r.ps[m].x : m \in 1..Len(r.ps)}
MapOf(r, as) == [x \in Names(r) |-> as[CHOOSE m \in 1..Len(r.ps) : r.ps[m].x = x]]
FreeOf(as) == UNION {SymsE(as[m], {}) : m \in 1..Len(as)}
RECURSIVE InstE(_, _, _)
InstE(t, mp, free) ==
  IF t.a = <<>> /\ t.o \in DOMAIN mp /\ t.w = 0 THEN mp[t.o]
  ELSE IF t.o \in Binders
       THEN LET nm == t.a[1].o
                nn == IF nm \in free THEN "z9" ELSE nm        \* never captures
                m2 == (nm :> L(nn)) @@ mp
            IN Bnd(t.o, <<<<nn, t.a[1].a[1].o>>>>, InstE(t.a[2], m2, free))
  ELSE LET kids == [m \in 1..Len(t.a) |-> InstE(t.a[m], mp, free)]
       IN [t EXCEPT !.a = FlattenSeq([m \in 1..Len(kids) |-> IF kids[m].o = "rare-list" THEN kids[m].a ELSE <<kids[m]>>])]
\* the neutral elements
RECURSIVE Neut(_)
Neut(t) == LET kids == [m \in 1..Len(t.a) |-> Neut(t.a[m])]
               u == IF t.o \in Binders THEN [t EXCEPT !.a[2] = kids[2]] ELSE [t EXCEPT !.a = kids]
           IN IF t.o = "or" /\ t.a = <<>> THEN FF ELSE IF t.o = "and" /\ t.a = <<>> THEN TT
              ELSE IF u.o = "or" /\ u.a = <<TT>> THEN TT ELSE IF u.o = "and" /\ u.a = <<FF>> THEN FF ELSE u
\* for comparison only: a conjunction or disjunction of one term is that term
RECURSIVE Loose(_)
Loose(t) == LET kids == [m \in 1..Len(t.a) |-> Loose(t.a[m])]
                u == IF t.o \in Binders THEN [t EXCEPT !.a[2] = kids[2]] ELSE [t EXCEPT !.a = kids]
            IN IF u.o \in {"and", "or"} /\ Len(u.a) = 1 THEN u.a[1] ELSE u
InstOf(r, as, t) == Neut(InstE(t, MapOf(r, as), FreeOf(as)))
RECURSIVE Odd(_)            \* some operator was left with fewer arguments than it takes
Odd(t) == (t.o \in {"and", "or", "+"} /\ Len(t.a) < 2) \/ (t.o \notin Binders /\ \E m \in 1..Len(t.a) : Odd(t.a[m])) \/ (t.o \in Binders /\ Odd(t.a[2]))

\* arguments a parameter can be given
Elems(so) == CASE so = "Bool" -> {L("p"), Not(L("q"))} [] so = "U" -> {L("a"), T("f", <<L("b")>>)} [] so = "Int" -> {L("i"), N(0)}
Lists(so) == CASE so = "Bool" -> {RL(<<>>), RL(<<L("q")>>), RL(<<L("p"), Or(<<L("q"), L("r")>>)>>)}
               [] so = "Int" -> {RL(<<>>), RL(<<L("j")>>), RL(<<L("i"), L("j")>>)}
ArgsOf(pm) == IF pm.ls THEN Lists(pm.es) ELSE Elems(pm.es)
Fits(r, as) == Len(as) = Len(r.ps) /\ \A m \in 1..Len(as) : as[m].o # "rare-list" \/ r.ps[m].ls

Arith(c) == \E m \in 1..Len(c) : HasOp(c[m], "<") \/ HasOp(c[m], "+")
RefutedC(prem, c) == IF Arith(c) \/ \E m \in 1..Len(prem) : Arith(prem[m]) THEN SA!RefutedA(prem, c, [Int |-> {<<0, 1>>, <<1, 1>>, <<-1, 1>>}])
                     ELSE Refuted(prem, c, {2})

(* Steps: st.k the rule, st.as its arguments, st.nm the name given to it *)
S0 == [ph |-> "start", k |-> 0, as |-> <<>>, prem |-> <<>>, cl |-> <<>>, nm |-> "", ed |-> 0, why |-> ""]
Init == st = S0
Pick == st.ph = "start" /\ \E k \in 1..Len(Catalogue) : st' = [st EXCEPT !.ph = "args", !.k = k, !.nm = Catalogue[k].n]
Give == st.ph = "args" /\ Len(st.as) < Len(Catalogue[st.k].ps)
        /\ \E x \in ArgsOf(Catalogue[st.k].ps[Len(st.as) + 1]) : st' = [st EXCEPT !.as = Append(@, x)]
Make == st.ph = "args" /\ Len(st.as) = Len(Catalogue[st.k].ps)
        /\ LET r == Catalogue[st.k] IN
           st' = [st EXCEPT !.ph = "step", !.prem = [m \in 1..Len(r.prem) |-> <<InstOf(r, st.as, r.prem[m])>>],
                            !.cl = <<InstOf(r, st.as, r.con)>>]
Sampled == st.ph = "step" /\ st.ed < MaxEdits /\ Size(st.cl[1]) % Parts = Part
Pool == [Bool |-> {TT, FF, L("p")}, U |-> {L("a"), L("c")}, Int |-> {L("i"), N(1)}]
EditCl == Sampled /\ \E c \in MutC(st.cl, Pool) : st' = [st EXCEPT !.cl = c, !.ed = @ + 1, !.why = "conclusion"]
EditPrem == Sampled /\ \E m \in 1..Len(st.prem) : \E c \in MutC(st.prem[m], Pool) : st' = [st EXCEPT !.prem[m] = c, !.ed = @ + 1, !.why = "premise"]
DropPrem == st.ph = "step" /\ st.ed < MaxEdits /\ \E m \in 1..Len(st.prem) : st' = [st EXCEPT !.prem = RemoveNth(@, m), !.ed = @ + 1, !.why = "number of premises"]
MorePrem == st.ph = "step" /\ st.ed < MaxEdits /\ st' = [st EXCEPT !.prem = Append(@, <<L("r")>>), !.ed = @ + 1, !.why = "number of premises"]
SwapPrem == st.ph = "step" /\ st.ed < MaxEdits /\ \E m \in 1..(Len(st.prem) - 1) : st' = [st EXCEPT !.prem = SwapNth(@, m), !.ed = @ + 1, !.why = "order of premises"]
\* the arguments
EditArg == Sampled /\ \E m \in 1..Len(st.as) :
             LET pm == Catalogue[st.k].ps[m] IN
             \E x \in ((Elems(pm.es) \cup (IF pm.ls THEN Lists(pm.es) ELSE {})) \ {st.as[m]}) :
                  st' = [st EXCEPT !.as[m] = x, !.ed = @ + 1, !.why = "argument"]
SwapArg == st.ph = "step" /\ st.ed < MaxEdits /\ \E m \in 1..(Len(st.as) - 1) : st' = [st EXCEPT !.as = SwapNth(@, m), !.ed = @ + 1, !.why = "order of arguments"]
DropArg == st.ph = "step" /\ st.ed < MaxEdits /\ \E m \in 1..Len(st.as) : st' = [st EXCEPT !.as = RemoveNth(@, m), !.ed = @ + 1, !.why = "number of arguments"]
MoreArg == st.ph = "step" /\ st.ed < MaxEdits /\ \E m \in 1..(Len(st.as) + 1) : st' = [st EXCEPT !.as = InsertNth(@, m, L("p")), !.ed = @ + 1, !.why = "number of arguments"]
Rename == st.ph = "step" /\ st.ed < MaxEdits /\ \E nm \in {"nope", "Eq-refl", "double-not", "or-true"} \ {st.nm} :
             st' = [st EXCEPT !.nm = nm, !.ed = @ + 1, !.why = "rule name"]
\* a list where the rule has a single term, with the conclusion splicing would give
ListArg == st.ph = "step" /\ st.ed = 0 /\ \E m \in 1..Len(st.as) :
             LET r == Catalogue[st.k]
                 as == [st.as EXCEPT ![m] = RL(<<L(IF r.ps[m].es = "Bool" THEN "q" ELSE IF r.ps[m].es = "U" THEN "b" ELSE "j"), st.as[m]>>)]
             IN ~r.ps[m].ls /\ st' = [st EXCEPT !.as = as, !.cl = <<InstOf(r, as, r.con)>>, !.ed = MaxEdits, !.why = "list for a term",
                                               !.prem = [z \in 1..Len(r.prem) |-> <<InstOf(r, as, r.prem[z])>>]]
Next == \/ Pick \/ Give \/ Make \/ EditCl \/ EditPrem \/ DropPrem \/ MorePrem \/ SwapPrem
        \/ EditArg \/ SwapArg \/ DropArg \/ MoreArg \/ Rename \/ ListArg

\* the same clause up to conjunctions and disjunctions of one term
Same(c, d) == Len(c) = Len(d) /\ \A m \in 1..Len(c) : Loose(c[m]) = Loose(d[m])
RuleNamed(nm) == {k \in 1..Len(Catalogue) : Catalogue[k].n = nm}
\* the step follows the rule it names
Follows == \E k \in RuleNamed(st.nm) : LET r == Catalogue[k] IN
   /\ Fits(r, st.as)
   /\ Same(st.cl, <<InstOf(r, st.as, r.con)>>)
   /\ Len(st.prem) = Len(r.prem) /\ \A m \in 1..Len(st.prem) : Same(st.prem[m], <<InstOf(r, st.as, r.prem[m])>>)
Renamed == \E m \in 1..Len(st.cl) : "z9" \in SymsE(st.cl[m], {}) \/ HasOp(st.cl[m], "z9")
Plain == /\ \A m \in 1..Len(st.cl) : ~Odd(st.cl[m]) /\ ~HasOp(st.cl[m], "z9")
         /\ \A m \in 1..Len(st.prem) : \A z \in 1..Len(st.prem[m]) : ~Odd(st.prem[m][z])
Row(class) == PrintT("CASE\t" \o class \o "\trare_rewrite\t" \o Cls(st.prem) \o "\t" \o Cl(st.cl) \o "\t" \o
                     "\"" \o st.nm \o "\" " \o Join([m \in 1..Len(st.as) |-> IF st.as[m].o = "rare-list" /\ st.as[m].a = <<>> THEN "rare-list" ELSE Str(st.as[m])], " ") \o "\t" \o st.why)
Emit == IF st.ph = "start" THEN PrintT("CASE\tdecl\t" \o Decl) /\ PrintT("CASE\tfile\t" \o File)
        ELSE IF st.ph # "step" THEN TRUE
        ELSE IF st.ed = 0 THEN /\ Assert(~RefutedC(st.prem, st.cl), <<"rule not valid", st.nm, Cls(st.prem), Cl(st.cl)>>)
                               /\ Follows
                               /\ IF Plain THEN Row("ok") ELSE Row("odd")
        ELSE IF Follows THEN TRUE ELSE Row("not")
=============================================================================
