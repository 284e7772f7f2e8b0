------------------------------ MODULE Context ------------------------------
(* C15: subproofs whose anchors bind and assign variables. The machine opens anchors, derives one
   equality in the innermost one, and closes them one by one with the context rules; names of
   constants (a, b) and of bound variables (x, y) are re-used everywhere. The equality between the
   outermost conclusions is judged by the semantics: if some model refutes it, no checker may accept
   the whole derivation. The documented instances are built separately (Docs) and must be accepted. *)
EXTENDS Sem, Subst
CONSTANTS MaxDepth, Part, Parts, CParts  \* 1-in-Parts nested derivations, 1-in-CParts ways of closing
VARIABLE st
p == L("p") q == L("q") a == L("a") b == L("b") x == L("x") y == L("y") z == L("z") z1 == L("z1") z2 == L("z2")
f(t) == T("f", <<t>>) P(t) == T("P", <<t>>) Q(t, u) == T("Q", <<t, u>>)

\* anchor arguments: <<name, term>>; a variable argument maps the name to the empty operator
V(n) == <<n, L("")>>   As(n, t) == <<n, t>>
IsV(g) == g[2].o = ""
Arg(g) == IF IsV(g) THEN "(" \o g[1] \o " U)" ELSE "(:= (" \o g[1] \o " U) " \o Str(g[2]) \o ")"
AnchorS(id, gs) == "(anchor :step " \o id \o (IF gs = <<>> THEN "" ELSE " :args (" \o Join([k \in 1..Len(gs) |-> Arg(gs[k])], " ") \o ")") \o ")"
Bv(ns) == [k \in 1..Len(ns) |-> <<ns[k], "U">>]
MkQ(o, ns, t) == IF ns = <<>> THEN t ELSE Bnd(o, Bv(ns), t)
Ids == <<"t1", "t1.t1", "t1.t1.t1", "t1.t1.t1.t1">>

ArgSets == <<
  <<V("y"), As("x", y)>>, <<V("x")>>, <<V("y")>>, <<V("y"), As("x", a)>>, <<As("x", a)>>, <<As("x", f(a))>>, <<V("a"), As("x", a)>>,
  <<V("y"), V("a"), As("x", y)>>, <<V("x"), V("y"), As("a", x)>>, <<V("x"), As("x", f(x))>>, <<V("x"), As("x", x)>>,
  <<V("y"), V("x"), As("x", y), As("y", x)>>, <<As("x", a), As("y", x)>>, <<As("a", b)>>, <<As("a", f(a))>>, <<V("x"), As("a", x), As("b", x)>>,
  <<V("x"), V("y"), As("a", x), As("b", y)>>, <<V("x"), V("y"), As("a", y), As("b", x)>>, <<As("x", a), As("x", b)>>, <<As("a", b), As("b", a)>>,
  <<V("a")>>, <<V("a"), V("b")>>, <<V("b"), As("a", b)>>, <<V("x"), V("y")>>, <<As("x", b), As("a", x)>>, <<V("a"), V("x"), As("y", a)>>,
  <<V("x"), V("y"), As("y", x), As("x", y)>>, <<V("y"), As("x", y), As("a", y)>>, <<As("x", a), As("y", b)>>, <<>> >>
Bodies == <<P(x), P(y), P(a), P(b), P(f(a)), Q(x, y), Q(y, x), Q(a, x), Q(x, a), Q(x, x), Q(y, y), Q(a, b), Q(b, a), P(f(x)), Q(y, a),
            Exi(<<<<"x", "U">>>>, Q(x, a)), Exi(<<<<"y", "U">>>>, Q(x, y)), Exi(<<<<"a", "U">>>>, Q(x, a)), All(<<<<"y", "U">>>>, Q(y, x)),
            Let(<<<<"x", a>>>>, P(x)), Let(<<<<"y", x>>>>, Q(y, x)), Let(<<<<"a", x>>>>, P(a))>>
Lists == << <<"x">>, <<"y">>, <<"a">>, <<"b">>, <<"x", "y">>, <<"y", "x">>, <<"a", "b">>, <<"b", "a">>, <<"a", "x">>, <<"y", "a">> >>
Vals == <<a, b, f(a), x, y>>

RECURSIVE Nl(_)
Nl(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Nl(Tail(ss))
Hyp == Eq(a, b)
InnerS(n, l, r, rl) == "(step " \o Ids[n + 1] \o " (cl " \o Str(Eq(l, r)) \o ") :rule " \o rl \o (IF rl \in {"cong", "symm"} THEN " :premises (h1)" ELSE "") \o ")"
Init == st = [ph |-> "start", hyp |-> 0, ctx |-> <<>>, ends |-> <<>>, d |-> 0, l |-> TT, r |-> TT, rl |-> "", h |-> 0, anch |-> <<>>]
Begin == st.ph = "start" /\ \E hy \in 0..1 : st' = [st EXCEPT !.ph = "open", !.hyp = hy]
Open == /\ st.ph = "open" /\ Len(st.ctx) < MaxDepth
        /\ \E k \in 1..Len(ArgSets) : st' = [st EXCEPT !.ctx = Append(@, ArgSets[k]), !.anch = Append(@, AnchorS(Ids[Len(st.ctx) + 1], ArgSets[k])), !.h = @ * 31 + k]
\* part selection: which derivations of a large space are followed
Sel(h) == (h * 7919 + (h \div 13) * 101) % Parts = Part
\* right-hand sides some reading of the contexts could justify: replacements, proper or capturing, of one or
\* two assigned names, or all of the last anchor's at once
RECURSIVE Naive(_, _, _)
Naive(t, n, v) == IF t.a = <<>> THEN (IF t.o = n THEN v ELSE t)
                  ELSE IF t.o \in Binders THEN [t EXCEPT !.a[t.n + 1] = Naive(t.a[t.n + 1], n, v)]
                  ELSE IF t.o = "let" THEN [t EXCEPT !.a = [k \in 1..t.n |-> T(t.a[k].o, <<Naive(t.a[k].a[1], n, v)>>)] \o <<Naive(t.a[t.n + 1], n, v)>>]
                  ELSE [t EXCEPT !.a = [k \in 1..Len(t.a) |-> Naive(t.a[k], n, v)]]
AllAsg(ctx) == {g \in UNION {{ctx[k][m] : m \in 1..Len(ctx[k])} : k \in 1..Len(ctx)} : ~IsV(g)}
One(t, ctx) == {t} \cup UNION {{Sub(t, [n \in {g[1]} |-> g[2]]), Naive(t, g[1], g[2])} : g \in AllAsg(ctx)}
LastMap(gs) == LET as == SelectSeq(gs, LAMBDA g : ~IsV(g)) IN [n \in {as[k][1] : k \in 1..Len(as)} |-> as[CHOOSE k \in 1..Len(as) : as[k][1] = n][2]]
Cand(t, ctx) == LET o1 == One(t, ctx) IN o1 \cup UNION {One(w, ctx) : w \in o1} \cup {Sub(t, LastMap(ctx[Len(ctx)]))}
Equality(l, r, rl) == st' = [st EXCEPT !.ph = "eq", !.l = l, !.r = r, !.rl = rl, !.anch = Append(@, InnerS(Len(st.ctx), l, r, rl)), !.h = (@ * 7 + 13) % 100003]
Step == /\ st.ph = "open" /\ Len(st.ctx) >= 1
        /\ \E k \in 1..Len(Bodies) : /\ Len(st.ctx) > 1 => Sel(st.h * 3 + 131 * k)
             /\ \/ \E r \in Cand(Bodies[k], st.ctx) : Equality(Bodies[k], r, "refl") \/ Equality(r, Bodies[k], "refl")
                \/ Equality(Bodies[k], Bodies[k], "eq_reflexive")
                \/ \E m \in 1..Len(Bodies) : /\ Bodies[k].o = Bodies[m].o /\ Bodies[k].o \in {"P", "Q"} /\ k # m
                     /\ ((st.hyp = 1 /\ Equality(Bodies[k], Bodies[m], "cong")) \/ ((k * 7 + m + st.h) % 40 = 0 /\ Equality(Bodies[k], Bodies[m], "refl")))
SelC(i) == (st.h * 31 + i) % CParts = Part % CParts
Top == st.ctx[Len(st.ctx)]
Asg == SelectSeq(Top, LAMBDA g : ~IsV(g))
Pop(rule, nl, nr, extra) ==
  st' = [st EXCEPT !.ph = IF Len(st.ctx) = 1 THEN "done" ELSE "eq", !.ctx = SubSeq(@, 1, Len(@) - 1), !.l = nl, !.r = nr, !.d = @ + 1,
         !.ends = Append(@, "(step " \o Ids[Len(st.ctx)] \o " (cl " \o Str(Eq(nl, nr)) \o ") :rule " \o rule \o extra \o ")"), !.h = (@ * 7 + Size(nl) * 5 + Size(nr)) % 100003]
CanClose == st.ph = "eq" /\ st.ctx # <<>>
CloseBind == /\ CanClose
             /\ \E k \in 1..Len(Lists), m \in 1..Len(Lists), o \in {"forall", "exists", "choice", "lambda"} :
                  /\ Len(Lists[k]) = Len(Lists[m])
                  /\ (SelC(k * 11 + m) /\ (o # "forall" => (st.h + k + m) % 4 = 0)) \/ (o = "lambda" /\ Len(st.ctx) = 1 /\ Lists[k] = Reverse(Lists[m]))
                  /\ (o = "choice" => Len(Lists[k]) = 1) /\ (o = "lambda" => Len(Lists[k]) = 2) /\ (Len(st.ctx) > 1 => o = "forall")
                  /\ Pop("bind", MkQ(o, Lists[k], st.l), MkQ(o, Lists[m], st.r), "")
ClosePoint == /\ CanClose
              /\ \E o \in {"forall", "exists"}, k \in 1..Len(Lists), m \in 0..Len(Lists) :
                    /\ Len(st.ctx) = 1 /\ (m > 0 => Len(Lists[m]) < Len(Lists[k])) /\ SelC(k * 11 + m)
                    /\ Pop("onepoint", MkQ(o, Lists[k], st.l), IF m = 0 THEN st.r ELSE MkQ(o, Lists[m], st.r), "")
CloseLet == /\ CanClose /\ Len(Asg) \in 1..2
            /\ \E v1 \in 1..Len(Vals), v2 \in 1..Len(Vals), pr \in 0..st.hyp :
                 /\ Len(Asg) = 1 => v2 = 1
                 /\ SelC(v1 * 7 + v2)
                 /\ Pop("let", Let([k \in 1..Len(Asg) |-> <<Asg[k][1], Vals[IF k = 1 THEN v1 ELSE v2]>>], st.l), st.r, IF pr = 1 THEN " :premises (h1)" ELSE "")
CloseBindLet == /\ CanClose
                /\ \E n \in {"x", "y", "a"}, v1 \in 1..3, v2 \in 1..3, pr \in 0..st.hyp :
                     SelC(v1 * 3 + v2) /\ Pop("bind_let", Let(<<<<n, Vals[v1]>>>>, st.l), Let(<<<<n, Vals[v2]>>>>, st.r), IF pr = 1 THEN " :premises (h1)" ELSE "")
CloseSko == /\ CanClose /\ Len(Asg) = 1
            /\ \E o \in {"forall", "exists"} : Pop(IF o = "forall" THEN "sko_forall" ELSE "sko_ex", MkQ(o, <<Asg[1][1]>>, st.l), st.r, "")
CloseOther == /\ CanClose
              /\ \E rule \in {"subproof", "refl", "reordering", "eq_reflexive", "bind", "let"} :
                   SelC(0) /\ Pop(rule, st.l, st.r, IF rule = "reordering" THEN " :premises (" \o Ids[Len(st.ctx) + 1] \o ")" ELSE "")
Next == Begin \/ Open \/ Step \/ CloseBind \/ ClosePoint \/ CloseLet \/ CloseBindLet \/ CloseSko \/ CloseOther

Emit == CASE st.ph = "start" -> PrintT("CASE\tdecl\t" \o Decl)
          [] st.ph = "done" /\ ClosedC(<<>>, <<Eq(st.l, st.r)>>) /\ Refuted(IF st.hyp = 1 THEN << <<Hyp>> >> ELSE <<>>, <<Eq(st.l, st.r)>>, {2}) ->
               PrintT("CASE\tbad\t" \o ToString(st.hyp) \o "\t" \o Nl(st.anch) \o Nl(st.ends) \o "\t" \o Str(Eq(st.l, st.r)))
          [] OTHER -> TRUE

------------------------------------------------------------------------------
(* Documented derivations. A layer is [rule, args, map, L(body), R(body), pre]: what the anchor says, the
   substitution it stands for, the outer terms of the conclusion, and the conditions on the body. *)
Lay(rule, args, mp, lo, lns, ro, rns, vals, prem) == [rule |-> rule, args |-> args, mp |-> mp, lo |-> lo, lns |-> lns, ro |-> ro, rns |-> rns, vals |-> vals, prem |-> prem]
NoMap == [n \in {} |-> L("")]
Binds == {Lay("bind", <<V("z"), As("x", z)>>, [x |-> z], o, <<"x">>, o, <<"z">>, <<>>, "") : o \in {"forall", "exists", "choice", "lambda"}}
  \cup {Lay("bind", <<V("z")>>, NoMap, o, <<"z">>, o, <<"z">>, <<>>, "") : o \in {"forall", "exists"}}
  \cup {Lay("bind", <<V("x"), As("x", x)>>, NoMap, o, <<"x">>, o, <<"x">>, <<>>, "") : o \in {"forall", "choice"}}
  \cup {Lay("bind", <<V("z"), V("z1"), As("x", z), As("y", z1)>>, [x |-> z, y |-> z1], o, <<"x", "y">>, o, <<"z", "z1">>, <<>>, "") : o \in {"forall", "exists", "lambda"}}
  \cup {Lay("bind", <<V("z1"), V("y"), As("x", z1)>>, [x |-> z1], o, <<"x", "y">>, o, <<"z1", "y">>, <<>>, "") : o \in {"forall", "exists"}}
Lets == {Lay("let", <<As("x", v)>>, [x |-> v], "let", <<"x">>, "", <<>>, <<v>>, "") : v \in {a, f(b), Cho(<<<<"y", "U">>>>, P(y))}}
  \cup {Lay("let", <<As("x", a), As("y", b)>>, [x |-> a, y |-> b], "let", <<"x", "y">>, "", <<>>, <<a, b>>, "")}
  \cup {Lay("let", <<As("x", b)>>, [x |-> b], "let", <<"x">>, "", <<>>, <<a>>, " :premises (h1)")}
  \cup {Lay("let", <<As("x", f(a)), As("y", b)>>, [x |-> f(a), y |-> b], "let", <<"x", "y">>, "", <<>>, <<f(a), a>>, " :premises (h1)")}
BLets == {Lay("bind_let", <<V("x")>>, NoMap, "let", <<"x">>, "let", <<"x">>, <<a, a>>, "")}
  \cup {Lay("bind_let", <<V("x")>>, NoMap, "let", <<"x">>, "let", <<"x">>, <<a, b>>, " :premises (h1)")}
Wrap(o, ns, vals, t) == IF o = "" THEN t ELSE IF o = "let" THEN Let([k \in 1..Len(ns) |-> <<ns[k], vals[k]>>], t) ELSE Bnd(o, Bv(ns), t)
WrapL(y1, t) == IF y1.rule = "bind_let" THEN Let(<<<<"x", y1.vals[1]>>>>, t) ELSE Wrap(y1.lo, y1.lns, y1.vals, t)
WrapR(y1, t) == IF y1.rule = "bind_let" THEN Let(<<<<"x", y1.vals[2]>>>>, t) ELSE Wrap(y1.ro, y1.rns, <<>>, t)
\* the composed substitution of two layers: the inner variables shadow, the inner values are under the outer one
Compose(s1, y2) == LET shadow == {y2.args[k][1] : k \in 1..Len(y2.args)}
                   IN [n \in DOMAIN y2.mp |-> Sub(y2.mp[n], s1)] @@ [n \in DOMAIN s1 \ shadow |-> s1[n]]
DBodies == {P(x), Q(x, y), Q(y, x), And(<<P(x), Q(a, y)>>), Exi(<<<<"w", "U">>>>, Q(x, L("w"))), All(<<<<"x", "U">>>>, Q(x, y)), Or(<<P(f(x)), Not(P(y))>>), Q(x, a), Let(<<<<"w", x>>>>, Q(L("w"), y))}
\* one layer; the body must not use variables the conclusion leaves open
Doc1 == {[hyp |-> 1, cl |-> Eq(WrapL(y1, t), WrapR(y1, Sub(t, y1.mp))),
          txt |-> AnchorS("t1", y1.args) \o InnerS(1, t, Sub(t, y1.mp), "refl") \o
                  "(step t1 (cl " \o Str(Eq(WrapL(y1, t), WrapR(y1, Sub(t, y1.mp)))) \o ") :rule " \o y1.rule \o y1.prem \o ")"]
         : y1 \in Binds \cup Lets \cup BLets, t \in DBodies}
\* two layers: the inner one uses other names for its right-hand side, or shadows the outer left-hand side
Lay2 == {Lay("bind", <<V("z2"), As("y", z2)>>, [y |-> z2], o, <<"y">>, o, <<"z2">>, <<>>, "") : o \in {"forall", "exists", "choice"}}
  \cup {Lay("bind", <<V("z2"), As("x", z2)>>, [x |-> z2], o, <<"x">>, o, <<"z2">>, <<>>, "") : o \in {"forall", "exists"}}
  \cup {Lay("bind", <<V("x")>>, NoMap, "forall", <<"x">>, "forall", <<"x">>, <<>>, ""), Lay("bind", <<V("y")>>, NoMap, "exists", <<"y">>, "exists", <<"y">>, <<>>, "")}
  \cup {Lay("let", <<As("y", v)>>, [y |-> v], "let", <<"y">>, "", <<>>, <<v>>, "") : v \in {a, f(b)}}
Doc2 == {LET cm == Compose(y1.mp, y2)
             r0 == Sub(t, cm)
             l1 == IF y2.lo = "choice" THEN P(WrapL(y2, t)) ELSE WrapL(y2, t)
             r1 == IF y2.lo = "choice" THEN P(WrapR(y2, r0)) ELSE WrapR(y2, r0)
             e2 == Eq(WrapL(y2, t), WrapR(y2, r0))
             e1 == Eq(WrapL(y1, l1), WrapR(y1, r1))
         IN [hyp |-> 1, cl |-> e1,
             txt |-> AnchorS("t1", y1.args) \o AnchorS("t1.t1", y2.args) \o InnerS(2, t, r0, "refl") \o
                     "(step t1.t1 (cl " \o Str(e2) \o ") :rule " \o y2.rule \o y2.prem \o ")" \o
                     (IF y2.lo = "choice" THEN "(step t1.t2 (cl " \o Str(Eq(l1, r1)) \o ") :rule cong :premises (t1.t1))" ELSE "") \o
                     "(step t1 (cl " \o Str(e1) \o ") :rule " \o y1.rule \o y1.prem \o ")"]
         : y1 \in Binds \cup Lets, y2 \in Lay2, t \in DBodies}
\* skolemization
SkBodies == {P(x), Q(x, a), And(<<P(x), Q(a, x)>>), Exi(<<<<"y", "U">>>>, Q(x, y)), Q(x, x)}
Sk(o, rule, t, neg) ==
  LET c == Cho(<<<<"x", "U">>>>, IF neg THEN Not(t) ELSE t)
      r == Sub(t, [x |-> c]) e == Eq(Bnd(o, Bv(<<"x">>), t), r)
  IN [hyp |-> 0, cl |-> e, txt |-> AnchorS("t1", <<As("x", c)>>) \o InnerS(1, t, r, "refl") \o "(step t1 (cl " \o Str(e) \o ") :rule " \o rule \o ")"]
Sk2(o, rule, t, neg) ==
  LET ng(w) == IF neg THEN Not(w) ELSE w
      c1 == Cho(<<<<"x", "U">>>>, ng(Bnd(o, Bv(<<"y">>), t)))
      c2 == Cho(<<<<"y", "U">>>>, ng(Sub(t, [x |-> c1])))
      r == Sub(Sub(t, [x |-> c1]), [y |-> c2]) e == Eq(Bnd(o, Bv(<<"x", "y">>), t), r)
  IN [hyp |-> 0, cl |-> e, txt |-> AnchorS("t1", <<As("x", c1), As("y", c2)>>) \o InnerS(1, t, r, "refl") \o "(step t1 (cl " \o Str(e) \o ") :rule " \o rule \o ")"]
Sko == {Sk("exists", "sko_ex", t, FALSE) : t \in SkBodies} \cup {Sk("forall", "sko_forall", t, TRUE) : t \in SkBodies}
       \cup {Sk2("exists", "sko_ex", t, FALSE) : t \in {Q(x, y), And(<<P(x), P(y)>>)}} \cup {Sk2("forall", "sko_forall", t, TRUE) : t \in {Q(x, y), Or(<<P(x), P(y)>>)}}
\* one-point: the body mentions the point on the right side of a guard
Pt(o, ls, rs, args, mp, t) ==
  LET r == Sub(t, mp) e == Eq(Bnd(o, Bv(ls), t), MkQ(o, rs, r))
  IN [hyp |-> 0, cl |-> e, txt |-> AnchorS("t1", args) \o InnerS(1, t, r, "refl") \o "(step t1 (cl " \o Str(e) \o ") :rule onepoint)"]
Points == {Pt("forall", <<"x">>, <<>>, <<As("x", v)>>, [x |-> v], t) : v \in {a, f(b)}, t \in {}}
  \cup UNION {{Pt("forall", <<"x">>, <<>>, <<As("x", v)>>, [x |-> v], g) : g \in {Imp(Eq(x, v), P(x)), Imp(Eq(v, x), Q(x, x)), Or(<<Not(Eq(x, v)), P(x)>>), Or(<<P(x), Not(Eq(v, x)), p>>), Imp(And(<<p, Eq(x, v)>>), P(x)), Imp(p, Imp(Eq(x, v), P(x)))}} : v \in {a, f(b)}}
  \cup UNION {{Pt("exists", <<"x">>, <<>>, <<As("x", v)>>, [x |-> v], g) : g \in {And(<<Eq(x, v), P(x)>>), And(<<P(x), Eq(v, x)>>), Not(Or(<<Not(Eq(x, v)), P(x)>>)), Not(Imp(Eq(x, v), P(x)))}} : v \in {a, f(b)}}
  \cup UNION {{Pt("forall", <<"x", "y">>, <<"y">>, <<V("y"), As("x", v)>>, [x |-> v], g) : g \in {Imp(Eq(x, v), Q(x, y)), Or(<<Not(Eq(x, v)), P(y), P(x)>>)}} : v \in {a, f(b), y, f(y)}}
  \cup {Pt("exists", <<"x", "y">>, <<"y">>, <<V("y"), As("x", f(y))>>, [x |-> f(y)], And(<<Eq(x, f(y)), Q(x, y)>>)),
        Pt("forall", <<"x", "y">>, <<>>, <<As("x", a), As("y", b)>>, [x |-> a, y |-> b], Imp(And(<<Eq(x, a), Eq(y, b)>>), Q(x, y)))}
\* a body under congruence instead of refl, and discharge with no assumptions under a plain anchor
CongDoc == {[hyp |-> 0, cl |-> Eq(All(Bv(<<"x">>), P(x)), All(Bv(<<"z">>), P(z))),
   txt |-> AnchorS("t1", <<V("z"), As("x", z)>>) \o "(step t1.t1 (cl (= x z)) :rule refl)(step t1.t2 (cl (= (P x) (P z))) :rule cong :premises (t1.t1))(step t1 (cl (= (forall ((x U)) (P x)) (forall ((z U)) (P z)))) :rule bind)"]}
Docs == {dd \in Doc1 \cup Doc2 \cup Sko \cup Points \cup CongDoc : ClosedC(<<>>, <<dd.cl>>)}
DSeq == SetToSeq(Docs)
DInit == st = 0
DNext == st < Len(DSeq) /\ st' = st + 1
DEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o Decl) ELSE
   /\ Assert(~Refuted(IF DSeq[st].hyp = 1 THEN << <<Hyp>> >> ELSE <<>>, <<DSeq[st].cl>>, {2}), <<"documented derivation of a refuted equality", DSeq[st].txt>>)
   /\ PrintT("CASE\tok\t" \o ToString(DSeq[st].hyp) \o "\t" \o DSeq[st].txt \o "\t" \o Str(DSeq[st].cl))
=============================================================================
