-------------------------------- MODULE Sem --------------------------------
(* Semantics of the core logic with uninterpreted sort U: Booleans are 0/1, U is 0..M-1 in a model of
   cardinality M. An interpretation I has v: constants, f1/f2: unary and binary symbols, m: M,
   ch: how choice picks from a set. *)
EXTENDS Terms

B2I(x) == IF x THEN 1 ELSE 0
DomS(sort, m) == IF sort = "Bool" THEN {0, 1} ELSE 0..(m - 1)
Un == {"f", "f2", "P", "h"}
Bin == {"g", "Q", "H"}
DomOf1(o) == IF o = "h" THEN "Bool" ELSE "U"
DomOf2(o) == IF o = "H" THEN "Bool" ELSE "U"

MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE Ev(_, _)
Ev(t, I) ==
  LET A(k) == Ev(t.a[k], I)
      n == Len(t.a)
  IN CASE t.o = "true" -> 1
       [] t.o = "false" -> 0
       [] t.o = "not" -> 1 - A(1)
       [] t.o = "and" -> B2I(\A k \in 1..n : A(k) = 1)
       [] t.o = "or" -> B2I(\E k \in 1..n : A(k) = 1)
       [] t.o = "xor" -> FoldSeq(LAMBDA x, y : (Ev(x, I) + y) % 2, 0, t.a)
       [] t.o = "=>" -> B2I(A(n) = 1 \/ \E k \in 1..(n - 1) : A(k) = 0)
       [] t.o = "=" -> B2I(\A k \in 1..(n - 1) : A(k) = A(k + 1))
       [] t.o = "distinct" -> LET vs == [k \in 1..n |-> A(k)] IN B2I(\A k \in 1..n : \A l \in (k + 1)..n : vs[k] # vs[l])
       [] t.o = "ite" -> IF A(1) = 1 THEN A(2) ELSE A(3)
       [] t.o \in {"forall", "exists"} ->
            LET vs == {t.a[k].o : k \in 1..t.n}
                so(x) == t.a[CHOOSE k \in 1..t.n : t.a[k].o = x /\ \A l \in (k + 1)..t.n : t.a[l].o # x].a[1].o
                env == {fn \in [vs -> 0..(IF I.m < 2 THEN 1 ELSE I.m - 1)] : \A x \in vs : fn[x] \in DomS(so(x), I.m)}
                body(fn) == Ev(t.a[n], [I EXCEPT !.v = fn @@ I.v])
            IN IF t.o = "forall" THEN B2I(\A fn \in env : body(fn) = 1) ELSE B2I(\E fn \in env : body(fn) = 1)
       [] t.o = "choice" ->
            LET D == DomS(t.a[1].a[1].o, I.m)
                S == {x \in D : Ev(t.a[n], [I EXCEPT !.v = (t.a[1].o :> x) @@ I.v]) = 1}
                S2 == IF S = {} THEN D ELSE S
            IN IF I.ch = "min" THEN MinS(S2) ELSE MaxS(S2)
       [] t.o = "lambda" ->      \* the graph of the function, by position
            LET so(k) == t.a[k].a[1].o
                tup == {fn \in [1..t.n -> 0..(IF I.m < 2 THEN 1 ELSE I.m - 1)] : \A k \in 1..t.n : fn[k] \in DomS(so(k), I.m)}
                env(fn) == [x \in {t.a[k].o : k \in 1..t.n} |-> fn[CHOOSE k \in 1..t.n : t.a[k].o = x /\ \A l \in (k + 1)..t.n : t.a[l].o # x]]
            IN [fn \in tup |-> Ev(t.a[n], [I EXCEPT !.v = env(fn) @@ I.v])]
       [] t.o = "let" ->
            LET fn == [x \in {t.a[k].o : k \in 1..t.n} |-> Ev(t.a[CHOOSE k \in 1..t.n : t.a[k].o = x].a[1], I)]
            IN Ev(t.a[n], [I EXCEPT !.v = fn @@ I.v])
       [] t.a = <<>> -> IF t.o \in DOMAIN I.v THEN I.v[t.o] ELSE IF t.o \in Un THEN I.f1[t.o] ELSE I.f2[t.o]
       [] t.o \in Un -> I.f1[t.o][A(1)]
       [] t.o \in Bin -> I.f2[t.o][<<A(1), A(2)>>]

Holds(c, I) == \E k \in 1..Len(c) : Ev(c[k], I) = 1

\* all interpretations of a set of symbols in a model with M elements (choice resolved either way)
ModelsOf(syms, M, chs) ==
  LET cs == {x \in syms : x \in DOMAIN Sig}
      u1 == syms \cap Un
      u2 == syms \cap Bin
      hi == IF M < 2 THEN 1 ELSE M - 1
      vs == {fn \in [cs -> 0..hi] : \A x \in cs : fn[x] \in DomS(Sig[x], M)}
      F1(o) == [DomS(DomOf1(o), M) -> DomS(FSig[o], M)]
      F2(o) == [DomS(DomOf2(o), M) \X DomS(DomOf2(o), M) -> DomS(FSig[o], M)]
      all1 == UNION {F1(o) : o \in u1}
      all2 == UNION {F2(o) : o \in u2}
      f1s == {fn \in [u1 -> all1] : \A o \in u1 : fn[o] \in F1(o)}
      f2s == {fn \in [u2 -> all2] : \A o \in u2 : fn[o] \in F2(o)}
  IN {[v |-> x, f1 |-> y, f2 |-> z, m |-> M, ch |-> ch] : x \in vs, y \in f1s, z \in f2s, ch \in chs}

RECURSIVE HasOp(_, _)
HasOp(t, o) == t.o = o \/ \E k \in 1..Len(t.a) : HasOp(t.a[k], o)
HasU(syms, cs) == TRUE

\* prem: sequence of clauses; c: clause. TRUE iff some enumerated model separates them.
CounterIn(prem, c, M) ==
  LET syms == SymsC(c) \cup UNION {SymsC(prem[k]) : k \in 1..Len(prem)}
      chs == IF \E k \in 1..Len(c) : HasOp(c[k], "choice") THEN {"min", "max"} ELSE {"min"}
  IN \E I \in ModelsOf(syms, M, chs) : (\A k \in 1..Len(prem) : Holds(prem[k], I)) /\ ~Holds(c, I)
Refuted(prem, c, Ms) == \E M \in Ms : CounterIn(prem, c, M)
=============================================================================
