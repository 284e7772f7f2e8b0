------------------------------ MODULE Clausify ------------------------------
(* C10: connective introduction tautologies and elimination rules. *)
EXTENDS Sem
CONSTANTS MaxEdits, Part, Parts, Big
VARIABLE st

p == L("p") q == L("q") r == L("r") s == L("s")
a == L("a") b == L("b") c == L("c") d == L("d") x == L("x") y == L("y")
f(t) == T("f", <<t>>)
P(t) == T("P", <<t>>)
Q(t, z) == T("Q", <<t, z>>)
h(t) == T("h", <<t>>)
H(t, z) == T("H", <<t, z>>)

S0(rule, cl) == [r |-> rule, prem |-> <<>>, cl |-> cl, args |-> <<>>]
SA(rule, cl, args) == [r |-> rule, prem |-> <<>>, cl |-> cl, args |-> args]
S1(rule, pr, cl) == [r |-> rule, prem |-> <<<<pr>>>>, cl |-> cl, args |-> <<>>]
S1A(rule, pr, cl, args) == [r |-> rule, prem |-> <<<<pr>>>>, cl |-> cl, args |-> args]

\* metavariable instances: pairs/triples of formulas
Pairs == {<<p, q>>, <<Not(p), q>>, <<p, Not(q)>>, <<And(<<p, q>>), r>>, <<p, p>>, <<Eq(a, b), P(a)>>, <<p, Not(p)>>}
Trips == {<<p, q, r>>, <<Not(p), Not(q), r>>, <<p, q, q>>, <<Eq(a, b), P(a), P(b)>>, <<p, p, q>>}
Lists == {<<p>>, <<p, q>>, <<Not(p), q>>, <<p, q, r>>, <<p, p, Not(q)>>, <<p, q, r, s>>, <<p, Not(q), r, Not(s), And(<<p, q>>)>>,
          <<p, p>>, <<L("p1"), L("p2"), L("p3"), L("p4"), L("p5"), L("p6")>>, <<Or(<<p, q>>), And(<<p, q>>)>>}
Lists2 == {z \in Lists : Len(z) >= 1}
Nots(z) == [k \in 1..Len(z) |-> Not(z[k])]

Taut ==
  {S0("true", <<TT>>), S0("false", <<Not(FF)>>)} \cup
  {S0("not_not", <<Not(Not(Not(z[1]))), z[1]>>) : z \in Pairs} \cup
  UNION {{SA("and_pos", <<Not(And(z)), z[k]>>, <<N(k - 1)>>) : k \in 1..Len(z)} : z \in Lists2} \cup
  {S0("and_neg", <<And(z)>> \o Nots(z)) : z \in Lists2} \cup
  {S0("or_pos", <<Not(Or(z))>> \o z) : z \in Lists2} \cup
  UNION {{SA("or_neg", <<Or(z), Not(z[k])>>, <<N(k - 1)>>) : k \in 1..Len(z)} : z \in Lists2} \cup
  UNION {LET u == z[1] v == z[2] IN
    {S0("xor_pos1", <<Not(Xor(u, v)), u, v>>), S0("xor_pos2", <<Not(Xor(u, v)), Not(u), Not(v)>>),
     S0("xor_neg1", <<Xor(u, v), u, Not(v)>>), S0("xor_neg2", <<Xor(u, v), Not(u), v>>),
     S0("implies_pos", <<Not(Imp(u, v)), Not(u), v>>), S0("implies_neg1", <<Imp(u, v), u>>), S0("implies_neg2", <<Imp(u, v), Not(v)>>),
     S0("equiv_pos1", <<Not(Eq(u, v)), u, Not(v)>>), S0("equiv_pos2", <<Not(Eq(u, v)), Not(u), v>>),
     S0("equiv_neg1", <<Eq(u, v), Not(u), Not(v)>>), S0("equiv_neg2", <<Eq(u, v), u, v>>)} : z \in Pairs} \cup
  UNION {LET u == z[1] v == z[2] w == z[3] t == Ite(u, v, w) IN
    {S0("ite_pos1", <<Not(t), u, w>>), S0("ite_pos2", <<Not(t), Not(u), v>>),
     S0("ite_neg1", <<t, u, Not(w)>>), S0("ite_neg2", <<t, Not(u), Not(v)>>)} : z \in Trips}

Elim ==
  UNION {{S1A("and", And(z), <<z[k]>>, <<N(k - 1)>>) : k \in 1..Len(z)} : z \in Lists2} \cup
  UNION {{S1A("not_or", Not(Or(z)), <<Not(z[k])>>, <<N(k - 1)>>) : k \in 1..Len(z)} : z \in Lists2} \cup
  {S1("or", Or(z), z) : z \in Lists2} \cup {S1("not_and", Not(And(z)), Nots(z)) : z \in Lists2} \cup
  {[r |-> "and_intro", prem |-> [k \in 1..Len(z) |-> <<z[k]>>], cl |-> <<And(z)>>, args |-> <<>>] : z \in Lists2} \cup
  {[r |-> "and_intro", prem |-> <<<<p, q>>, <<r>>>>, cl |-> <<And(<<Or(<<p, q>>), r>>)>>, args |-> <<>>],
   [r |-> "and_intro", prem |-> <<<<r>>, <<p, Not(q), s>>>>, cl |-> <<And(<<r, Or(<<p, Not(q), s>>)>>)>>, args |-> <<>>]} \cup
  UNION {LET u == z[1] v == z[2] IN
    {S1("xor1", Xor(u, v), <<u, v>>), S1("xor2", Xor(u, v), <<Not(u), Not(v)>>),
     S1("not_xor1", Not(Xor(u, v)), <<u, Not(v)>>), S1("not_xor2", Not(Xor(u, v)), <<Not(u), v>>),
     S1("implies", Imp(u, v), <<Not(u), v>>), S1("not_implies1", Not(Imp(u, v)), <<u>>), S1("not_implies2", Not(Imp(u, v)), <<Not(v)>>),
     S1("equiv1", Eq(u, v), <<Not(u), v>>), S1("equiv2", Eq(u, v), <<u, Not(v)>>),
     S1("not_equiv1", Not(Eq(u, v)), <<u, v>>), S1("not_equiv2", Not(Eq(u, v)), <<Not(u), Not(v)>>)} : z \in Pairs} \cup
  UNION {LET u == z[1] v == z[2] w == z[3] t == Ite(u, v, w) IN
    {S1("ite1", t, <<u, w>>), S1("ite2", t, <<Not(u), v>>),
     S1("not_ite1", Not(t), <<u, Not(w)>>), S1("not_ite2", Not(t), <<Not(u), Not(v)>>)} : z \in Trips}

XU == <<<<"x", "U">>>>
XYU == <<<<"x", "U">>, <<"y", "U">>>>
ite1 == Ite(p, a, b)
ite2 == Ite(q, c, d)
Defs ==
  UNION {LET u == z[1] v == z[2] IN
    {S0("connective_def", <<Eq(Xor(u, v), Or(<<And(<<Not(u), v>>), And(<<u, Not(v)>>)>>))>>),
     S0("connective_def", <<Eq(Eq(u, v), And(<<Imp(u, v), Imp(v, u)>>))>>)} : z \in Pairs} \cup
  {S0("connective_def", <<Eq(Ite(z[1], z[2], z[3]), And(<<Imp(z[1], z[2]), Imp(Not(z[1]), z[3])>>))>>) : z \in Trips} \cup
  {S0("connective_def", <<Eq(All(XU, P(x)), Not(Exi(XU, Not(P(x)))))>>),
   S0("connective_def", <<Eq(Exi(XU, P(x)), Not(All(XU, Not(P(x)))))>>),
   S0("connective_def", <<Eq(All(XYU, Q(x, y)), Not(Exi(XYU, Not(Q(x, y)))))>>),
   S0("connective_def", <<Eq(Exi(XYU, Q(x, y)), Not(All(XYU, Not(Q(x, y)))))>>)} \cup
  {S0("ite_intro", <<Eq(P(ite1), And(<<P(ite1), Ite(p, Eq(a, ite1), Eq(b, ite1))>>))>>),
   S0("ite_intro", <<Eq(P(ite1), And(<<P(ite1), Ite(p, Eq(ite1, a), Eq(ite1, b))>>))>>),
   S0("ite_intro", <<Eq(P(ite1), And(<<P(ite1), Ite(p, Eq(ite1, a), Eq(b, ite1))>>))>>),
   S0("ite_intro", <<Eq(Eq(ite1, ite2), And(<<Eq(ite1, ite2), Ite(p, Eq(a, ite1), Eq(b, ite1)), Ite(q, Eq(c, ite2), Eq(d, ite2))>>))>>),
   S0("ite_intro", <<Eq(f(ite1), f(ite1))>>),
   S0("ite_intro", <<Eq(Eq(a, ite1), Eq(ite1, a))>>)} \cup
  {S0("distinct_elim", <<Eq(T("distinct", <<a, b>>), Not(Eq(a, b)))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<a, b>>), Not(Eq(b, a)))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<p, q>>), Not(Eq(p, q)))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<a, b, c>>), And(<<Not(Eq(a, b)), Not(Eq(a, c)), Not(Eq(b, c))>>))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<a, b, c>>), And(<<Not(Eq(b, a)), Not(Eq(a, c)), Not(Eq(c, b))>>))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<a, b, c, d>>), And(<<Not(Eq(a, b)), Not(Eq(a, c)), Not(Eq(a, d)), Not(Eq(b, c)), Not(Eq(b, d)), Not(Eq(c, d))>>))>>),
   S0("distinct_elim", <<Eq(T("distinct", <<p, q, r>>), FF)>>), S0("distinct_elim", <<Eq(T("distinct", <<p, q, r, s>>), FF)>>)} \cup
  {S0("nary_elim", <<Eq(T("=>", <<p, q, r>>), Imp(p, Imp(q, r)))>>),
   S0("nary_elim", <<Eq(T("=>", <<p, q, r, s>>), Imp(p, Imp(q, Imp(r, s))))>>),
   S0("nary_elim", <<Eq(T("=>", <<p, q>>), Imp(p, q))>>),
   S0("nary_elim", <<Eq(T("=", <<a, b, c>>), And(<<Eq(a, b), Eq(b, c)>>))>>),
   S0("nary_elim", <<Eq(T("=", <<a, b, c, d>>), And(<<Eq(a, b), Eq(b, c), Eq(c, d)>>))>>),
   S0("nary_elim", <<Eq(T("=", <<p, q, r>>), And(<<Eq(p, q), Eq(q, r)>>))>>)} \cup
  {S1("bfun_elim", P(h(p)), <<P(Ite(p, h(TT), h(FF)))>>)}

XB == <<<<"x", "Bool">>>>
Bfun ==
  {S1("bfun_elim", Eq(h(p), a), <<Eq(Ite(p, h(TT), h(FF)), a)>>),
   S1("bfun_elim", H(p, q), <<Ite(p, Ite(q, H(TT, TT), H(TT, FF)), Ite(q, H(FF, TT), H(FF, FF)))>>),
   S1("bfun_elim", H(p, TT), <<Ite(p, H(TT, TT), H(FF, TT))>>),
   S1("bfun_elim", H(FF, Not(q)), <<Ite(Not(q), H(FF, TT), H(FF, FF))>>),
   S1("bfun_elim", All(XB, Or(<<x, p>>)), <<And(<<Or(<<FF, p>>), Or(<<TT, p>>)>>)>>),
   S1("bfun_elim", Exi(XB, And(<<x, p>>)), <<Or(<<And(<<FF, p>>), And(<<TT, p>>)>>)>>),
   S1("bfun_elim", All(<<<<"x", "Bool">>, <<"y", "U">>>>, Or(<<x, P(y)>>)), <<All(<<<<"y", "U">>>>, And(<<Or(<<FF, P(y)>>), Or(<<TT, P(y)>>)>>))>>),
   S1("bfun_elim", All(<<<<"y", "U">>, <<"x", "Bool">>>>, Or(<<x, P(y)>>)), <<All(<<<<"y", "U">>>>, And(<<Or(<<FF, P(y)>>), Or(<<TT, P(y)>>)>>))>>),
   S1("bfun_elim", All(<<<<"x", "Bool">>, <<"y", "Bool">>>>, Or(<<x, Not(y), p>>)),
      <<And(<<Or(<<FF, Not(FF), p>>), Or(<<TT, Not(FF), p>>), Or(<<FF, Not(TT), p>>), Or(<<TT, Not(TT), p>>)>>)>>),
   S1("bfun_elim", All(XB, P(h(x))), <<And(<<P(h(FF)), P(h(TT))>>)>>)}

Seeds == Taut \cup Elim \cup Defs \cup Bfun
Pool == [Bool |-> {p, q, TT} \cup (IF Big THEN {r, FF, Not(p), P(a)} ELSE {}),
         U |-> {a, b} \cup (IF Big THEN {c, f(a)} ELSE {})]
NoU(syms) == \A k \in syms : (k \in DOMAIN Sig => Sig[k] = "Bool") /\ k \notin DOMAIN FSig
RefutedC(prem, cl) ==
  LET syms == SymsC(cl) \cup UNION {SymsC(prem[k]) : k \in 1..Len(prem)}
      hasQ == \E k \in 1..Len(cl) : HasOp(cl[k], "forall") \/ HasOp(cl[k], "exists")
  IN Refuted(prem, cl, IF NoU(syms) /\ ~hasQ THEN {1} ELSE IF syms \cap {"Q", "g"} # {} THEN {1, 2} ELSE {1, 2, 3})
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- Decl
Init == At!AInit
Next == At!ANext
Emit == At!AEmit
=============================================================================
