------------------------------- MODULE Subst -------------------------------
(* Free variables, capture-avoiding substitution and alpha-equivalence, on the names of leaves. *)
EXTENDS Terms

Consts == {"true", "false", "#int", "#real", "#bv", "#str"}
IsName(t) == t.a = <<>> /\ t.o \notin Consts
RECURSIVE FV(_)
FV(t) ==
  LET body == t.a[Len(t.a)]
      bs == {t.a[k].o : k \in 1..t.n}
  IN CASE t.o \in Binders -> FV(body) \ bs
       [] t.o = "let" -> (FV(body) \ bs) \cup UNION {FV(t.a[k].a[1]) : k \in 1..t.n}
       [] IsName(t) -> {t.o}
       [] OTHER -> UNION {FV(t.a[k]) : k \in 1..Len(t.a)}

RECURSIVE Names(_)
Names(t) == (IF IsName(t) THEN {t.o} ELSE {}) \cup (IF t.o \in Binders \cup {"let"} THEN {t.a[k].o : k \in 1..t.n} ELSE {})
            \cup UNION {Names(t.a[k]) : k \in 1..Len(t.a)}

Fresh == <<"z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9">>
RECURSIVE Sub(_, _)
\* s: function from names to terms
Sub(t, s) ==
  LET m == Len(t.a)
      dom(bs) == {x \in DOMAIN s : x \notin bs}
      cut(bs) == [x \in dom(bs) |-> s[x]]
      bset == {t.a[k].o : k \in 1..t.n}
      s1 == cut(bset)
      live == {x \in DOMAIN s1 : x \in FV(t.a[m])}
      cap == UNION {FV(s1[x]) : x \in live} \cap bset
      used == Names(t) \cup UNION {Names(s[x]) : x \in DOMAIN s}
      frs == SelectSeq(Fresh, LAMBDA z : z \notin used)
      newn(k) == IF t.a[k].o \in cap THEN frs[CHOOSE q \in 1..t.n : t.a[q].o = t.a[k].o] ELSE t.a[k].o
      ren == [x \in cap |-> L(frs[CHOOSE q \in 1..t.n : t.a[q].o = x])]
      body == IF cap = {} THEN t.a[m] ELSE Sub(t.a[m], ren)
  IN CASE t.o \in Binders -> [t EXCEPT !.a = [k \in 1..t.n |-> [t.a[k] EXCEPT !.o = newn(k)]] \o <<Sub(body, s1)>>]
       [] t.o = "let" -> [t EXCEPT !.a = [k \in 1..t.n |-> T(newn(k), <<Sub(t.a[k].a[1], s)>>)] \o <<Sub(body, s1)>>]
       [] t.a = <<>> -> IF IsName(t) /\ t.o \in DOMAIN s THEN s[t.o] ELSE t
       [] OTHER -> [t EXCEPT !.a = [k \in 1..m |-> Sub(t.a[k], s)]]

\* canonical form: bound names become binding depths
RECURSIVE Db(_, _, _)
Db(t, env, d) ==
  LET m == Len(t.a)
      env2 == [x \in {t.a[k].o : k \in 1..t.n} |-> "#" \o ToString(d + (CHOOSE k \in 1..t.n : t.a[k].o = x /\ \A q \in (k + 1)..t.n : t.a[q].o # x))] @@ env
  IN CASE t.o \in Binders -> [t EXCEPT !.a = [k \in 1..t.n |-> T("#", t.a[k].a)] \o <<Db(t.a[m], env2, d + t.n)>>]
       [] t.o = "let" -> [t EXCEPT !.a = [k \in 1..t.n |-> T("#", <<Db(t.a[k].a[1], env, d)>>)] \o <<Db(t.a[m], env2, d + t.n)>>]
       [] t.a = <<>> -> IF IsName(t) /\ t.o \in DOMAIN env THEN L(env[t.o]) ELSE t
       [] OTHER -> [t EXCEPT !.a = [k \in 1..m |-> Db(t.a[k], env, d)]]
Alpha(s, t) == Db(s, NoEnv, 0) = Db(t, NoEnv, 0)
=============================================================================
