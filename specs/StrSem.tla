------------------------------- MODULE StrSem -------------------------------
(* SMT-LIB semantics of strings and regular expressions. A string is a sequence of letters 0..3; the
   value of a regular-expression variable is a regular expression without variables. Variables range
   over small sets: a model found is a model, so refutations are exact. *)
EXTENDS Terms

RECURSIVE StrsUpTo(_, _)
StrsUpTo(Al, n) == IF n = 0 THEN {<<>>} ELSE LET S == StrsUpTo(Al, n - 1) IN S \cup {Append(s, c) : s \in {x \in S : Len(x) = n - 1}, c \in Al}
SubStr(s, m, n) == IF m < 0 \/ m >= Len(s) \/ n <= 0 THEN <<>> ELSE SubSeq(s, m + 1, IF m + n > Len(s) THEN Len(s) ELSE m + n)
RECURSIVE LexLt(_, _)
LexLt(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE IF x = <<>> THEN FALSE ELSE x[1] < y[1] \/ (x[1] = y[1] /\ LexLt(Tail(x), Tail(y)))
BI(x) == IF x THEN 1 ELSE 0
\* choice terms are only judged in models where the strings they describe have at most two letters
Quant1 == StrsUpTo({0, 1}, 2)
RECURSIVE EvS(_, _), InRe(_, _, _)
\* membership of the string s in the regular expression r
InRe(s, r, V) ==
  LET I(x, k) == InRe(x, r.a[k], V)
      n == Len(r.a)
      RECURSIVE Seq2(_, _)
      Seq2(x, k) == IF k = n THEN I(x, k) ELSE \E m \in 0..Len(x) : I(SubSeq(x, 1, m), k) /\ Seq2(SubSeq(x, m + 1, Len(x)), k + 1)
      RECURSIVE Star(_)
      Star(x) == x = <<>> \/ \E m \in 1..Len(x) : I(SubSeq(x, 1, m), 1) /\ Star(SubSeq(x, m + 1, Len(x)))
  IN CASE r.o = "re.none" -> FALSE
       [] r.o = "re.all" -> TRUE
       [] r.o = "re.allchar" -> Len(s) = 1
       [] r.o = "str.to_re" -> s = EvS(r.a[1], V)
       [] r.o = "re.++" -> Seq2(s, 1)
       [] r.o = "re.union" -> \E k \in 1..n : I(s, k)
       [] r.o = "re.inter" -> \A k \in 1..n : I(s, k)
       [] r.o = "re.*" -> Star(s)
       [] r.o = "re.+" -> I(s, 1) \/ \E m \in 1..Len(s) : I(SubSeq(s, 1, m), 1) /\ Star(SubSeq(s, m + 1, Len(s)))
       [] r.o = "re.opt" -> s = <<>> \/ I(s, 1)
       [] r.o = "re.comp" -> ~I(s, 1)
       [] r.o = "re.diff" -> I(s, 1) /\ \A k \in 2..n : ~I(s, k)
       [] r.o = "re.range" -> LET x == EvS(r.a[1], V) y == EvS(r.a[2], V) IN Len(x) = 1 /\ Len(y) = 1 /\ Len(s) = 1 /\ x[1] <= s[1] /\ s[1] <= y[1]
       [] OTHER -> InRe(s, V[r.o], V)
EvS(t, V) ==
  LET A(k) == EvS(t.a[k], V)
      n == Len(t.a)
      chain(F(_, _)) == BI(\A k \in 1..(n - 1) : F(A(k), A(k + 1)))
      \* values of the bound variables of a binder
      Dom(so) == CASE so = "Int" -> -1..6 [] so = "String" -> Quant1 [] so = "RegLan" -> {L("re.all")} [] OTHER -> {0, 1}
      RECURSIVE Envs(_)
      Envs(k) == IF k = 0 THEN {V} ELSE UNION {{(t.a[k].o :> x) @@ e : x \in Dom(t.a[k].a[1].o)} : e \in Envs(k - 1)}
  IN CASE t.o = "true" -> 1
       [] t.o = "false" -> 0
       [] t.o = "not" -> 1 - A(1)
       [] t.o = "and" -> BI(\A k \in 1..n : A(k) = 1)
       [] t.o = "or" -> BI(\E k \in 1..n : A(k) = 1)
       [] t.o = "xor" -> FoldLeft(LAMBDA acc, x : (acc + EvS(x, V)) % 2, 0, t.a)
       [] t.o = "=>" -> BI(A(n) = 1 \/ \E k \in 1..(n - 1) : A(k) = 0)
       [] t.o = "=" -> IF SortOf(t.a[1]) = "RegLan" THEN BI(\A x \in Quant1 : \A k \in 1..(n - 1) : InRe(x, t.a[k], V) = InRe(x, t.a[k + 1], V)) ELSE chain(LAMBDA x, y : x = y)
       [] t.o = "distinct" -> BI(\A k \in 1..n : \A l \in (k + 1)..n : A(k) # A(l))
       [] t.o = "ite" -> IF A(1) = 1 THEN A(2) ELSE A(3)
       [] t.o = "#int" -> t.n
       [] t.o = "#str" -> StrDec(t.n, t.w)
       [] t.o = "+" -> FoldLeft(LAMBDA acc, x : acc + EvS(x, V), 0, t.a)
       [] t.o = "*" -> FoldLeft(LAMBDA acc, x : acc * EvS(x, V), 1, t.a)
       [] t.o = "-" -> IF n = 1 THEN -A(1) ELSE FoldLeft(LAMBDA acc, x : acc - EvS(x, V), A(1), Tail(t.a))
       [] t.o = "<" -> chain(LAMBDA x, y : x < y)
       [] t.o = "<=" -> chain(LAMBDA x, y : x <= y)
       [] t.o = ">" -> chain(LAMBDA x, y : x > y)
       [] t.o = ">=" -> chain(LAMBDA x, y : x >= y)
       [] t.o = "str.++" -> FlattenSeq([k \in 1..n |-> A(k)])
       [] t.o = "str.len" -> Len(A(1))
       [] t.o = "str.substr" -> SubStr(A(1), A(2), A(3))
       [] t.o = "str.at" -> SubStr(A(1), A(2), 1)
       [] t.o = "str.in_re" -> BI(InRe(A(1), t.a[2], V))
       [] t.o = "forall" -> BI(\A e \in Envs(t.n) : EvS(t.a[n], e) = 1)
       [] t.o = "exists" -> BI(\E e \in Envs(t.n) : EvS(t.a[n], e) = 1)
       [] t.o = "choice" -> LET S0 == {z \in Quant1 : EvS(t.a[2], (t.a[1].o :> z) @@ V) = 1}
                                S1 == IF S0 = {} THEN Quant1 ELSE S0
                            IN CHOOSE z \in S1 : \A y \in S1 : z = y \/ IF V["ch"] = 0 THEN LexLt(z, y) ELSE LexLt(y, z)
       [] t.a = <<>> -> V[t.o]
HoldsS(c, V) == \E k \in 1..Len(c) : EvS(c[k], V) = 1

RECURSIVE VarsS(_)
VarsS(t) == IF t.a = <<>> THEN (IF t.o \in {"true", "false", "#int", "#str"} \cup ReOps THEN {} ELSE {t.o})
            ELSE IF t.o \in Binders THEN VarsS(t.a[Len(t.a)]) \ {t.a[k].o : k \in 1..t.n}
            ELSE UNION {VarsS(t.a[k]) : k \in 1..Len(t.a)}
VarsCS(prem, c) == UNION ({VarsS(c[k]) : k \in 1..Len(c)} \cup UNION {{VarsS(prem[m][k]) : k \in 1..Len(prem[m])} : m \in 1..Len(prem)})
RECURSIVE HasOp(_, _)
HasOp(t, ops) == t.o \in ops \/ \E k \in 1..Len(t.a) : HasOp(t.a[k], ops)
ValsS(vars, Doms, chs) ==
  LET RECURSIVE Build(_)
      Build(ns) == IF ns = {} THEN {("ch" :> z) : z \in chs}
                   ELSE LET o == CHOOSE z \in ns : TRUE IN UNION {{fn @@ (o :> v) : v \in Doms[Sig[o]]} : fn \in Build(ns \ {o})}
  IN Build(vars)
RefutedS(prem, c, Doms) ==
  LET chs == IF \E k \in 1..Len(c) : HasOp(c[k], {"choice"}) THEN {0, 1} ELSE {0}
  IN \E V \in ValsS(VarsCS(prem, c), Doms, chs) : (\A k \in 1..Len(prem) : HoldsS(prem[k], V)) /\ ~HoldsS(c, V)
=============================================================================
