------------------------------ MODULE Polyeq -------------------------------
(* C26 over uninterpreted symbols, with binders *)
EXTENDS Sem
CONSTANTS MaxD, MaxE, Part, Parts
VARIABLE st
p == L("p") q == L("q") r == L("r") a == L("a") b == L("b") x == L("x") y == L("y")
f(t) == T("f", <<t>>) P(t) == T("P", <<t>>) Q(s, t) == T("Q", <<s, t>>)
xU == <<"x", "U">> yU == <<"y", "U">>
Flat == {Eq(a, b), Eq(f(a), b), Eq(Eq(p, q), r), Eq(Eq(a, b), Eq(b, a)), And(<<p, q, r>>), And(<<p, q, r, p>>), And(<<And(<<p, q>>), r>>), And(<<p>>), Or(<<p, q, r>>), Or(<<p, Or(<<q, r>>)>>),
         T("xor", <<p, q, r>>), T("=>", <<p, q, r>>), T("=>", <<p, q, r, p>>), T("=>", <<p, Imp(q, r)>>), T("=>", <<Imp(p, q), r>>), T("=", <<a, b, f(a)>>), T("=", <<p, q, r>>),
         T("distinct", <<a, b>>), T("distinct", <<a, b, f(a)>>), Not(Eq(a, b)), Ite(Eq(a, b), p, Eq(b, a)), P(Ite(p, a, b)), And(<<Eq(a, b), Eq(b, f(b))>>), Eq(a, a), Eq(p, And(<<p, q, r>>)),
         Imp(And(<<p, q>>), r), Or(<<Not(p), p>>), T("H", <<Eq(a, b), p>>), T("h", <<Eq(a, b)>>), And(<<Or(<<p>>), q>>), T("=", <<Eq(a, b), Eq(b, a), p>>)}
Qf == {All(<<xU>>, P(x)), All(<<xU>>, Eq(x, a)), All(<<xU, yU>>, Q(x, y)), All(<<xU>>, All(<<yU>>, Q(x, y))), All(<<xU>>, Exi(<<yU>>, Q(y, x))), Exi(<<xU>>, Eq(f(x), x)), Exi(<<xU, yU>>, Eq(x, y)),
       And(<<All(<<xU>>, P(x)), All(<<yU>>, P(y))>>), And(<<All(<<xU, yU>>, Q(x, y)), All(<<yU, xU>>, Q(x, y))>>), All(<<xU>>, And(<<P(x), All(<<xU>>, P(x))>>)), All(<<xU>>, And(<<P(x), All(<<yU>>, Q(x, y))>>)),
       All(<<xU>>, Or(<<P(x), Exi(<<xU, yU>>, Q(x, y))>>)), P(Cho(<<xU>>, Q(x, a))), P(Cho(<<xU>>, Eq(x, Cho(<<yU>>, P(y))))), Eq(Cho(<<xU>>, P(x)), a), All(<<xU>>, P(Cho(<<yU>>, Q(x, y)))),
       Let(<<<<"x", a>>>>, P(x)), Let(<<<<"x", a>>, <<"y", b>>>>, Q(x, y)), Let(<<<<"x", a>>>>, Let(<<<<"y", x>>>>, Q(x, y))), Let(<<<<"x", a>>>>, Let(<<<<"x", f(x)>>>>, P(x))), Let(<<<<"x", Eq(a, b)>>>>, And(<<x, x>>)),
       All(<<xU>>, Let(<<<<"y", x>>>>, Q(x, y))), All(<<xU>>, Let(<<<<"x", f(x)>>>>, P(x))), Let(<<<<"x", p>>, <<"y", q>>>>, Imp(x, y)), Let(<<<<"x", a>>>>, All(<<xU>>, P(x))), Let(<<<<"x", a>>>>, And(<<P(x), All(<<xU>>, P(x))>>)),
       All(<<<<"x", "Bool">>>>, Or(<<x, p>>)), All(<<<<"x", "Bool">>, yU>>, Or(<<x, P(y)>>)), Exi(<<xU>>, And(<<P(x), Q(x, a), p>>)), All(<<xU>>, All(<<xU>>, P(x))), All(<<xU, xU>>, Q(x, x)),
       And(<<P(a), All(<<xU>>, P(x)), All(<<xU>>, P(a))>>), All(<<xU>>, Eq(Eq(x, a), P(x))), All(<<<<"a", "U">>>>, Q(a, b)), And(<<P(a), All(<<<<"a", "U">>>>, P(a))>>),
       Eq(Bnd("lambda", <<xU>>, P(x)), Bnd("lambda", <<yU>>, P(y))), Eq(Bnd("lambda", <<xU, yU>>, Q(x, y)), Bnd("lambda", <<xU, yU>>, Q(y, x)))}
Seeds == Flat \cup Qf \cup {Not(z) : z \in Qf} \cup {And(<<z, Eq(b, a)>>) : z \in Qf}
Pool == [Bool |-> {p, q, P(a)}, U |-> {a, b}]
Bm(syms) == IF syms \cap {"Q", "g"} # {} THEN {1, 2} ELSE {1, 2}
Sep(s, t) == LET syms == SymsE(s, {}) \cup SymsE(t, {})
                 chs == IF HasOp(s, "choice") \/ HasOp(t, "choice") THEN {"min", "max"} ELSE {"min"}
             IN syms \cap XVars = {} /\ \E M \in Bm(syms) : \E I \in ModelsOf(syms, M, chs) : Ev(s, I) # Ev(t, I)
Pm == INSTANCE PolyM WITH DeclText <- Decl, Separated <- Sep
Init == Pm!PInit
Next == Pm!PNext
Emit == Pm!PEmit
=============================================================================
