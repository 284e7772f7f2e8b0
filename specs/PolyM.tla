------------------------------- MODULE PolyM -------------------------------
(* C26: pairs of terms that drift apart. From a pair <<s, s>> the second term is rewritten by the
   documented differences -- flipping a binary equality, renaming a bound variable, expanding an
   n-ary operator -- and by arbitrary one-place edits. Every reachable pair is classified: whether
   it is equal in each comparison mode, and whether some model separates it. *)
EXTENDS Terms, Subst
CONSTANTS DeclText, Seeds, Pool, Separated(_, _), MaxD, MaxE, Part, Parts
VARIABLE st
SeedSeq == SetToSeq(Seeds)
PInit == st = [ph |-> "start", s |-> TT, t |-> TT, k |-> {}, d |-> 0, e |-> 0, ix |-> 0]
Pick == st.ph = "start" /\ \E m \in 1..Len(SeedSeq) : st' = [st EXCEPT !.ph = "pair", !.s = SeedSeq[m], !.t = SeedSeq[m], !.ix = m]
\* rewriting at one place; F gives the rewritings at the root
RECURSIVE Flips(_)
Flips(t) == (IF t.o = "=" /\ Len(t.a) = 2 /\ t.a[1] # t.a[2] THEN {Eq(t.a[2], t.a[1])} ELSE {})
            \cup UNION {{[t EXCEPT !.a[m] = x] : x \in Flips(t.a[m])} : m \in 1..Len(t.a)}
NewN == {"x", "y", "x1"}
Rens1(t) == IF t.o \in Binders \cup {"let"}
            THEN UNION {{[t EXCEPT !.a = [t.a EXCEPT ![m] = [t.a[m] EXCEPT !.o = z], ![Len(t.a)] = Sub(t.a[Len(t.a)], t.a[m].o :> L(z))]]
                     : z \in {y \in NewN : y \notin {t.a[h].o : h \in 1..t.n} /\ y \notin FV(t.a[Len(t.a)])}} : m \in {h \in 1..t.n : \A g \in (h + 1)..t.n : t.a[g].o # t.a[h].o}}
            ELSE {}
RECURSIVE Rens(_)
Rens(t) == Rens1(t) \cup UNION {{[t EXCEPT !.a[m] = x] : x \in Rens(t.a[m])} : m \in 1..Len(t.a)}
LeftOps == {"and", "or", "xor", "+", "*", "-", "bvadd"}
Chain == {"=", "<", "<=", ">", ">="}
Naries1(t) == LET m == Len(t.a) IN
   (IF t.o \in LeftOps /\ m >= 3 THEN {T(t.o, <<T(t.o, SubSeq(t.a, 1, m - 1)), t.a[m]>>)} ELSE {}) \cup
   (IF t.o = "=>" /\ m >= 3 THEN {T(t.o, <<t.a[1], T(t.o, Tail(t.a))>>)} ELSE {}) \cup
   (IF t.o \in Chain /\ m >= 3 THEN {And([h \in 1..(m - 1) |-> T(t.o, <<t.a[h], t.a[h + 1]>>)])} ELSE {}) \cup
   (IF t.o \in {"and", "or"} /\ m = 1 THEN {t.a[1]} ELSE {})
RECURSIVE Naries(_)
Naries(t) == Naries1(t) \cup UNION {{[t EXCEPT !.a[m] = x] : x \in Naries(t.a[m])} : m \in 1..Len(t.a)}
\* dropping, adding and swapping arguments wherever the syntax allows it
RECURSIVE Arity(_)
Arity(t) == LET m == Len(t.a) IN
   (IF t.o \in {"and", "or"} /\ m >= 2 THEN {[t EXCEPT !.a = RemoveNth(t.a, h)] : h \in 1..m} ELSE {})
   \cup (IF t.o \in LeftOps \cup Chain \cup {"=>", "distinct"} /\ m >= 3 THEN {[t EXCEPT !.a = RemoveNth(t.a, h)] : h \in 1..m} ELSE {})
   \cup (IF t.o \in LeftOps \cup Chain \cup {"=>", "distinct"} /\ m >= 2 THEN {[t EXCEPT !.a = Append(t.a, t.a[h])] : h \in 1..m} \cup {[t EXCEPT !.a = SwapNth(t.a, h)] : h \in 1..(m - 1)} ELSE {})
   \cup (IF t.o \in Binders \cup {"let"} THEN {[t EXCEPT !.a[m] = x] : x \in Arity(t.a[m])} ELSE UNION {{[t EXCEPT !.a[h] = x] : x \in Arity(t.a[h])} : h \in 1..m})
Can == st.ph = "pair" /\ st.d < MaxD
\* (flipping one link of an already expanded chain of equalities claims nothing)
Flip == Can /\ \E x \in Flips(st.t) : st' = [st EXCEPT !.t = x, !.k = @ \cup (IF "nary" \in @ THEN {"late"} ELSE {"flip"}), !.d = @ + 1]
Rename == Can /\ \E x \in Rens(st.t) : st' = [st EXCEPT !.t = x, !.k = @ \cup {"ren"}, !.d = @ + 1]
Nary == Can /\ \E x \in Naries(st.t) : st' = [st EXCEPT !.t = x, !.k = @ \cup (IF "nary" \in @ THEN {"late"} ELSE {"nary"}), !.d = @ + 1]
Edit == st.ph = "pair" /\ st.e < MaxE /\ st.ix % Parts = Part /\ \E x \in MutE(st.t, NoEnv, Pool) \cup Arity(st.t) : st' = [st EXCEPT !.t = x, !.e = @ + 1, !.d = MaxD]
PNext == Pick \/ Flip \/ Rename \/ Nary \/ Edit

\* equal up to flipping binary equalities
RECURSIVE Re(_, _)
Re(s, t) == \/ s = t
            \/ /\ s.o = t.o /\ s.n = t.n /\ s.w = t.w /\ Len(s.a) = Len(t.a) /\ s.a # <<>>
               /\ \/ \A m \in 1..Len(s.a) : Re(s.a[m], t.a[m])
                  \/ s.o = "=" /\ Len(s.a) = 2 /\ Re(s.a[1], t.a[2]) /\ Re(s.a[2], t.a[1])
B(x) == IF x THEN "1" ELSE "0"
PEmit ==
  IF st.ph = "start" THEN PrintT("CASE\tdecl\t" \o DeclText)
  ELSE LET ds == Db(st.s, NoEnv, 0) dt == Db(st.t, NoEnv, 0)
           re == Re(st.s, st.t) al == ds = dt real == Re(ds, dt)
           sep == SortOf(st.s) = SortOf(st.t) /\ Separated(st.s, st.t)
       IN /\ Assert(~sep \/ ~real, <<"equal terms separated", Str(st.s), Str(st.t)>>)
          /\ Assert(st.e > 0 \/ ~sep, <<"documented rewriting separated", Str(st.s), Str(st.t)>>)
          /\ Assert(st.e > 0 \/ "nary" \in st.k \/ real, <<"documented rewriting not equal", Str(st.s), Str(st.t)>>)
          /\ PrintT("CASE\tpair\t" \o Str(st.s) \o "\t" \o Str(st.t) \o "\t" \o B(st.s = st.t) \o B(re) \o B(al) \o B(real) \o "\t"
                    \o B(sep) \o "\t" \o (IF st.e > 0 THEN "edit" ELSE IF st.k = {"flip", "nary"} THEN "flipnary" ELSE IF st.k = {"nary"} THEN "nary" ELSE "-"))
=============================================================================
