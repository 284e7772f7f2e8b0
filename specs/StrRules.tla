------------------------------ MODULE StrRules ------------------------------
(* C19: string concatenation, length and regular-expression rules. A string term in flat form is a
   sequence of atoms: variables and one-letter constants. *)
EXTENDS StrSem
CONSTANTS Mode, MaxEdits, Part, Parts     \* Mode: "cat", "split", "cprop", "re"
VARIABLE st

sa == L("sa") sb == L("sb") sc == L("sc") sd == L("sd")
Ca == StrK(<<0>>) Cb == StrK(<<1>>) Cc == StrK(<<2>>) Ce == StrK(<<3>>)
Emp == StrK(<<>>)
DeclS == Join([m \in 1..4 |-> "(declare-fun " \o <<"sa", "sb", "sc", "sd">>[m] \o " () String)"], "") \o "(declare-fun i () Int)(declare-fun L () Int)(declare-fun ra () RegLan)(declare-fun rb () RegLan)"
i == L("i")
IsC(x) == x.o = "#str"
Cat(s) == IF s = <<>> THEN Emp ELSE IF Len(s) = 1 THEN s[1] ELSE T("str.++", s)
\* adjacent constants written as one constant
Merged(s) == Cat(FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ IsC(x) /\ IsC(acc[Len(acc)])
                                          THEN Append(SubSeq(acc, 1, Len(acc) - 1), StrK(StrDec(acc[Len(acc)].n, acc[Len(acc)].w) \o StrDec(x.n, x.w)))
                                          ELSE Append(acc, x), <<>>, s))
RECURSIVE Nest(_)
Nest(s) == IF Len(s) <= 1 THEN Cat(s) ELSE T("str.++", <<s[1], Nest(Tail(s))>>)
Forms(s) == {Cat(s), Merged(s), Nest(s)} \cup (IF Len(s) >= 1 THEN {T("str.++", <<Cat(s), Emp>>), T("str.++", <<Emp, Merged(s)>>)} ELSE {})
\* the flat form of a term
RECURSIVE Flat(_)
Flat(t) == IF t.o = "#str" THEN [k \in 1..t.w |-> StrK(<<StrDec(t.n, t.w)[k]>>)]
           ELSE IF t.o = "str.++" THEN FlattenSeq([k \in 1..Len(t.a) |-> Flat(t.a[k])]) ELSE <<t>>

StrL(t) == T("str.len", <<t>>)
Sub(t, m, n) == T("str.substr", <<t, m, n>>)
Mi(x, y) == T("-", <<x, y>>)
InR(t, r) == T("str.in_re", <<t, r>>)
Ge(x, y) == T(">=", <<x, y>>)
Gt(x, y) == T(">", <<x, y>>)
Lt(x, y) == T("<", <<x, y>>)
Le(x, y) == T("<=", <<x, y>>)
Tf(x) == IF x THEN TT ELSE FF
Prefix(t, n) == Sub(t, N(0), n)                                \* first n letters
SuffixRem(t, n) == Sub(t, n, Mi(StrL(t), n))                   \* all but the first n letters
SuffixL(t, n) == Sub(t, Mi(StrL(t), n), n)                     \* last n letters
S(rule, prem, c, as) == [r |-> rule, prem |-> prem, cl |-> c, args |-> as]
Prem(x) == <<x>>
Rev(s, b) == IF b THEN Reverse(s) ELSE s
\* length of the longest common prefix of two flat forms
Lcp(x, y) == LET m == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y) IN
             CHOOSE n \in 0..m : (\A k \in 1..n : x[k] = y[k]) /\ (n < m => x[n + 1] # y[n + 1])
Strip(x, y, b) == LET n == Lcp(Rev(x, b), Rev(y, b)) IN <<Rev(SubSeq(Rev(x, b), n + 1, Len(x)), b), Rev(SubSeq(Rev(y, b), n + 1, Len(y)), b)>>

FlatU == {<<sa>>, <<Ca>>, <<Ca, sa>>, <<sa, Ca>>, <<Ca, Cb>>, <<Cb, Ca>>, <<Ca, Cb, sa>>, <<sa, sb>>, <<sb, sa>>, <<sa, Ca, sb>>, <<Ca, sa, Cb>>, <<sa, Cb, Ca>>, <<Ca, Ca, Cb>>, <<sa, sb, Ca>>}
CatSeeds(z0) ==
  UNION {UNION {UNION {LET z == Strip(x, y, b) IN
      {S("concat_eq", <<Prem(Eq(f, g))>>, <<Eq(h, Merged(z[2]))>>, <<Tf(b)>>) : f \in {Cat(x), Nest(x)}, g \in {Merged(y)}, h \in {Cat(z[1]), Merged(z[1])}}
      : b \in BOOLEAN} : y \in FlatU \ {x}} : x \in FlatU}
  \cup UNION {UNION {LET z == Strip(x, y, b) p == Rev(z[1], b) q == Rev(z[2], b) IN
      IF (p # <<>> => IsC(p[1])) /\ (q # <<>> => IsC(q[1])) THEN {S("concat_conflict", <<Prem(Eq(f, g))>>, <<FF>>, <<Tf(b)>>) : f \in {Merged(x), Nest(x)}, g \in {Cat(y)}} ELSE {}
      : b \in BOOLEAN, y \in FlatU \ {x}} : x \in FlatU}
  \cup UNION {UNION {UNION {LET s1 == Rev(SubSeq(Rev(x, b), 1, m), b) t1 == Rev(SubSeq(Rev(y, b), 1, n), b) IN
      {S("concat_unify", <<Prem(Eq(Merged(x), Nest(y))), Prem(Eq(StrL(f), StrL(Merged(t1))))>>, <<Eq(Cat(s1), Merged(t1))>>, <<Tf(b)>>) : f \in {Cat(s1), Merged(s1)}}
      : m \in 1..Len(x), n \in 1..Len(y), b \in BOOLEAN} : y \in {z \in FlatU : Len(z) >= 2}} : x \in {<<sa, sb>>, <<Ca, Cb, sa>>, <<sa, Ca, sb>>}}
NonE(t) == Not(Eq(StrL(t), N(0)))
UniPre(t, s) == Ite(Ge(StrL(t), StrL(s)), SuffixRem(t, StrL(s)), SuffixRem(s, StrL(t)))
UniSuf(t, s) == Ite(Ge(StrL(t), StrL(s)), Prefix(t, Mi(StrL(t), StrL(s))), Prefix(s, Mi(StrL(s), StrL(t))))
HeadC(s, b) == IsC(Rev(s, b)[1])
SplitSeeds(z0) ==
  \* t = s, t1 a nonempty part at the end of t where s has a letter
  UNION {UNION {LET p == Rev(SubSeq(Rev(x, b), 1, n), b) f == Cat(p) c == Rev(y, b)[1] IN
     {S(IF b THEN "concat_csplit_suffix" ELSE "concat_csplit_prefix", <<Prem(Eq(Merged(x), g)), Prem(NonE(f))>>,
        <<Eq(f, T("str.++", IF b THEN <<Prefix(f, Mi(StrL(f), N(1))), c>> ELSE <<c, SuffixRem(f, N(1))>>))>>, <<>>) : g \in {Merged(y), Nest(y)}}
     : n \in 1..(IF Len(x) > 2 THEN 2 ELSE Len(x)), b \in {d \in BOOLEAN : HeadC(y, d)}} : x \in {<<sa>>, <<sa, sb>>, <<sa, Cb, sb>>, <<Ca, sa>>}, y \in {<<Ca, sb>>, <<sb, Cb>>, <<Ca, Cb, sc>>, <<Ca>>, <<Ce, sb>>, <<sc, Ca, Cb>>}}
  \cup UNION {UNION {LET p == Rev(SubSeq(Rev(x, b), 1, 1), b) q == Rev(SubSeq(Rev(y, b), 1, n), b) f == Cat(p) g == Cat(q)
                        r == IF b THEN UniSuf(f, g) ELSE UniPre(f, g)
                        pre == Prem(Eq(Merged(x), Merged(y)))
                        j(z) == T("str.++", IF b THEN <<r, z>> ELSE <<z, r>>)
                        jf == T("str.++", IF b THEN <<r>> \o p ELSE p \o <<r>>)
                        jg == T("str.++", IF b THEN <<r>> \o q ELSE q \o <<r>>) IN
     {S(IF b THEN "concat_split_suffix" ELSE "concat_split_prefix", <<pre, Prem(Not(Eq(StrL(f), StrL(g))))>>,
        <<And(<<Or(<<Eq(f, jg), Eq(g, jf)>>), Not(Eq(r, Emp)), Gt(StrL(r), N(0))>>)>>, <<>>),
      S(IF b THEN "concat_lprop_suffix" ELSE "concat_lprop_prefix", <<pre, Prem(Gt(StrL(f), StrL(g)))>>,
        <<And(<<Eq(f, jg), Not(Eq(r, Emp)), Gt(StrL(r), N(0))>>)>>, <<>>)}
     : n \in {1, 2}, b \in BOOLEAN} : x \in {<<sa, sb>>, <<sa, Ca, sb>>}, y \in {<<sc, sa>>, <<Ca, sc>>, <<sc, Cb>>}}
\* constant propagation: t1 ++ w1 ++ t3 = w2 ++ s with constants w1 and w2
Ws == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 2>>, <<0, 2, 1>>}
RECURSIVE Over(_, _)
Over(s, t) == IF Len(s) <= 1 THEN 0 ELSE IF \A k \in 1..Len(s) : k <= Len(t) => s[k] = t[k] THEN 0 ELSE 1 + Over(Tail(s), t)
CpropSeeds(z0) == UNION {LET v == 1 + Over(Tail(Rev(w2, b)), Rev(w1, b))
                         k == StrK(w2)
                         oc == IF b THEN SuffixL(k, N(v)) ELSE Prefix(k, N(v))
                         t == IF b THEN T("str.++", <<sb, StrK(w1), sa>>) ELSE T("str.++", <<sa, StrK(w1), sb>>) IN
     {S(IF b THEN "concat_cprop_suffix" ELSE "concat_cprop_prefix", <<Prem(Eq(t, z)), Prem(NonE(sa))>>,
        <<Eq(sa, T("str.++", IF b THEN <<Prefix(sa, Mi(StrL(sa), StrL(oc))), oc>> ELSE <<oc, SuffixRem(sa, StrL(oc))>>))>>, <<>>)
      : z \in {IF b THEN T("str.++", <<sc, k>>) ELSE T("str.++", <<k, sc>>), k}} : w1 \in Ws, w2 \in Ws, b \in BOOLEAN}
LenTs == {sa, Cat(<<sa, sb>>), StrK(<<0, 1>>), Cat(<<Ca, sa>>)}
LenSeeds(z0) == {S("string_length_pos", <<>>, <<Or(<<And(<<Eq(StrL(t), N(0)), Eq(t, Emp)>>), Gt(StrL(t), N(0))>>)>>, <<t>>) : t \in LenTs}
  \cup {S("string_length_non_empty", <<Prem(Not(Eq(t, Emp)))>>, <<NonE(t)>>, <<>>) : t \in LenTs}
  \cup {S("string_decompose", <<Prem(Ge(StrL(t), n))>>, <<And(<<Eq(t, T("str.++", <<Prefix(t, n), SuffixRem(t, n)>>)), Eq(StrL(Prefix(t, n)), n)>>)>>, <<FF>>) : t \in LenTs, n \in {N(0), N(1), N(2)}}
\* regular expressions
Tr(t) == T("str.to_re", <<t>>)
Star(r) == T("re.*", <<r>>)
ReC(rs) == IF Len(rs) = 1 THEN rs[1] ELSE T("re.++", rs)
Ac == L("re.allchar")
Fix1 == {Tr(Ca), Ac, T("re.range", <<Ca, Cb>>), T("re.union", <<Tr(Ca), Tr(Cb)>>), T("re.union", <<Tr(Ca), L("re.none")>>), T("re.inter", <<Ac, Tr(Cb)>>), T("re.inter", <<L("re.all"), Ac>>)}
Fix2 == {Tr(StrK(<<0, 1>>)), T("re.++", <<Ac, Tr(Ca)>>), T("re.++", <<Ac, Ac>>), T("re.union", <<Tr(StrK(<<0, 0>>)), T("re.++", <<Tr(Ca), Ac>>)>>)}
FixN(n) == IF n = 1 THEN Fix1 ELSE Fix2
ReRest == {<<Tr(Ca)>>, <<Star(Tr(Cb))>>, <<L("ra")>>, <<Ac, L("ra")>>, <<Star(L("rb")), Tr(sb)>>}
ReTs == {sa, Cat(<<sa, sb>>), Cat(<<Ca, sa>>)}
LV == "L"
LL1 == L(LV)
NegStar(t, r) == And(<<Not(Eq(t, Emp)), All(<<<<LV, "Int">>>>, Or(<<Le(LL1, N(0)), Lt(StrL(t), LL1), Not(InR(Prefix(t, LL1), r)), Not(InR(SuffixRem(t, LL1), Star(r)))>>))>>)
NegCat(t, r, rs) == All(<<<<LV, "Int">>>>, Or(<<Lt(LL1, N(0)), Lt(StrL(t), LL1), Not(InR(Prefix(t, LL1), r)), Not(InR(SuffixRem(t, LL1), ReC(rs)))>>))
ReSeeds(z0) ==
  {S("re_inter", <<Prem(InR(t, r)), Prem(InR(t, q))>>, <<InR(t, T("re.inter", <<r, q>>))>>, <<>>) : t \in ReTs, r \in {L("ra"), Star(Tr(Ca))}, q \in {L("rb"), Tr(Ca)}}
  \cup {S("re_unfold_neg", <<Prem(Not(InR(t, Star(r))))>>, <<NegStar(t, r)>>, <<>>) : t \in ReTs, r \in {Tr(Ca), L("ra"), Tr(StrK(<<0, 1>>)), T("re.opt", <<Tr(Cb)>>)}}
  \cup {S("re_unfold_neg", <<Prem(Not(InR(t, ReC(<<r>> \o rs))))>>, <<NegCat(t, r, rs)>>, <<>>) : t \in ReTs, r \in {Tr(Ca), L("ra")}, rs \in ReRest}
  \cup UNION {UNION {{S("re_unfold_neg_concat_fixed_prefix", <<Prem(Not(InR(t, ReC(<<r>> \o rs))))>>, <<Or(<<Not(InR(Prefix(t, N(n)), r)), Not(InR(SuffixRem(t, N(n)), ReC(rs)))>>)>>, <<>>),
               S("re_unfold_neg_concat_fixed_suffix", <<Prem(Not(InR(t, ReC(rs \o <<r>>))))>>, <<Or(<<Not(InR(SuffixL(t, N(n)), r)), Not(InR(Prefix(t, Mi(StrL(t), N(n))), ReC(rs)))>>)>>, <<>>)}
              : t \in {sa, Cat(<<Ca, sa>>)}, rs \in ReRest, r \in FixN(n)} : n \in {1, 2}}
  \cup {S("re_unfold_neg_concat_fixed_prefix", <<Prem(Not(InR(sa, ReC(<<Tr(Ce), Tr(Ca)>>))))>>, <<Or(<<Not(InR(Prefix(sa, N(1)), Tr(Ce))), Not(InR(SuffixRem(sa, N(1)), Tr(Ca)))>>)>>, <<>>)}
  \cup {S("re_concat_unfold_pos", <<Prem(InR(t, ReC([m \in 1..Len(z) |-> Tr(z[m])])))>>, <<Eq(t, T("str.++", z))>>, <<>>) : t \in ReTs, z \in {<<Ca, Cb>>, <<sa, Ca, sb>>, <<StrK(<<0, 1>>), sb>>}}
Seeds == CASE Mode = "cat" -> CatSeeds(0) [] Mode = "split" -> SplitSeeds(0) [] Mode = "cprop" -> CpropSeeds(0) \cup LenSeeds(0) [] OTHER -> ReSeeds(0)
Pool == ("Bool" :> {TT}) @@ ("Int" :> {N(0), N(2), StrL(sa)}) @@ ("String" :> {sb, Emp, StrK(<<0, 1>>)}) @@ ("RegLan" :> {L("rb"), L("re.none"), Tr(Ca)})
Strings1 == {<<>>, <<0>>, <<1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 2>>, <<0, 1, 0>>}
Strings2 == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>}
Strings3 == {<<>>, <<0>>, <<1>>, <<0, 1>>}
DomsS(n) == ("String" :> IF n <= 2 THEN Strings1 ELSE IF n = 3 THEN Strings2 ELSE Strings3) @@ ("Int" :> {-1, 0, 1, 2}) @@ ("RegLan" :> {L("re.none"), Tr(Ca), Star(Tr(Cb)), Ac})
RefutedC(prem, c) == RefutedS(prem, c, DomsS(IF \E k \in 1..Len(c) : HasOp(c[k], {"choice"}) THEN 4 ELSE Cardinality(VarsCS(prem, c))))
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclS
\* steps outside the documented schemas, listed systematically: those not entailed must be rejected
Cprop(w1, w2, rest, b, v, whole) ==
  LET oc == IF b THEN SuffixL(w2, N(v)) ELSE Prefix(w2, N(v))
      t == IF b THEN T("str.++", <<sb, w1, sa>>) ELSE T("str.++", <<sa, w1, sb>>)
  IN S(IF b THEN "concat_cprop_suffix" ELSE "concat_cprop_prefix", <<Prem(Eq(t, whole)), Prem(NonE(sa))>>,
       <<Eq(sa, T("str.++", IF b THEN <<Prefix(sa, Mi(StrL(sa), StrL(oc))), oc>> ELSE <<oc, SuffixRem(sa, StrL(oc))>>))>>, <<>>)
CpW == {Ca, Cb, StrK(<<0, 1>>), StrK(<<0, 1, 0>>), StrK(<<0, 1, 1>>), StrK(<<1, 0, 0>>), sc, T("str.++", <<Ca, sc>>), T("str.++", <<sc, Cb>>), T("str.++", <<Ca, sc, Cb>>), T("str.++", <<Ca, Cb, sc>>), T("str.++", <<sc, Cb, Ca>>), Emp}
CpropX(w1, w2) == {Cprop(w1, w2, <<>>, b, v, z) : b \in BOOLEAN, v \in 1..3, z \in {w2, T("str.++", <<w2, sd>>), T("str.++", <<sd, w2>>), T("str.++", <<Ca, w2, Cb>>), T("str.++", <<sd, w2, Ca>>), T("str.++", <<w2, Cb, Ca>>)}}
DecW(t) == {<<Prefix(t, n2), SuffixRem(t, n2)>> : n2 \in {N(-1), N(0), N(1), N(2), i}} \cup {<<Prefix(t, Mi(StrL(t), n2)), SuffixL(t, n2)>> : n2 \in {N(1), N(2), i}}
DecX(z0) == UNION {UNION {{S("string_decompose", <<Prem(Ge(StrL(t), n))>>, <<And(<<Eq(t, T("str.++", <<w[1], w[2]>>)), Eq(StrL(w[q]), n)>>)>>, <<Tf(b)>>) : b \in BOOLEAN, q \in {1, 2}, n \in {N(-1), N(0), N(1), N(2), i}} :
                 w \in DecW(t)} : t \in {sa, Cat(<<sa, sb>>), StrK(<<0, 1>>)}}
LenX(z0) == {S("string_length_pos", <<>>, <<c>>, <<t>>) : t \in {sa, sb}, c \in {Or(<<And(<<Eq(StrL(x), N(0)), Eq(y, Emp)>>), Gt(StrL(z), N(n))>>) : x \in {sa, sb}, y \in {sa, sb}, z \in {sa, sb}, n \in {0, 1}}}
\* premises equate x and y; what is concluded from it
CatX(x, y) ==
  {S("concat_conflict", <<Prem(Eq(Merged(x), Cat(y)))>>, <<FF>>, <<Tf(b)>>) : b \in BOOLEAN}
  \cup {S("concat_eq", <<Prem(Eq(Merged(x), Cat(y)))>>, <<Eq(f, g)>>, <<Tf(b)>>) : b \in BOOLEAN, f \in {sa, sb, Emp, Ca, Cat(<<sa, Ca>>)}, g \in {sa, sb, Cb, Cat(<<Ca, sb>>)}}
  \cup {S("concat_unify", <<Prem(Eq(Cat(x), Cat(y))), Prem(Eq(StrL(f), StrL(g)))>>, <<Eq(f, g)>>, <<Tf(b)>>) : b \in BOOLEAN, f \in {sa, Ca, sc, Cat(<<sa, Ca>>)}, g \in {sb, Cb, Cat(<<Ca, sb>>)}}
CsX(x, y) == UNION {{S(r, <<Prem(Eq(Cat(x), Cat(y))), Prem(NonE(f))>>, <<Eq(f, z)>>, <<>>) : r \in {"concat_csplit_prefix", "concat_csplit_suffix"}, 
            z \in UNION {{T("str.++", <<Prefix(f, Mi(StrL(f), N(1))), c>>), T("str.++", <<c, SuffixRem(f, N(1))>>), c} : c \in {Ca, Cb}}} : f \in {sa, sb, Cat(<<sa, Ca>>), Cat(<<Ca, sa>>)}}
SpX(x, y) == UNION {LET r == IF b THEN UniSuf(f, g) ELSE UniPre(f, g)  j(z) == T("str.++", IF b THEN <<r, z>> ELSE <<z, r>>) IN
            {S(rn, <<Prem(Eq(Cat(x), Cat(y))), Prem(p)>>, <<And(<<c, Not(Eq(r, Emp)), Gt(StrL(r), N(0))>>)>>, <<>>) : rn \in {"concat_split_suffix", "concat_split_prefix", "concat_lprop_prefix", "concat_lprop_suffix"},
               c \in {Eq(f, j(g)), Eq(g, j(f)), Or(<<Eq(f, j(g)), Eq(g, j(f))>>)}, p \in {Not(Eq(StrL(f), StrL(g))), Gt(StrL(f), StrL(g)), Gt(StrL(g), StrL(f))}}
            : b \in BOOLEAN, f \in {sa, sb}, g \in {sc, Ca, sb}}
CapT == {Sub(sa, N(0), LL1), Cat(<<Sub(sa, N(0), LL1), sb>>)}
Kc(t, pre, post, ks, rs) == LET m == Len(pre)  tot == m + 1 + Len(post)
     bs == FlattenSeq([k \in 1..m |-> <<<<"k_" \o ToString(k - 1), "String">>, <<"R_" \o ToString(k - 1), "RegLan">>>>]) \o [k \in 1..(tot - m) |-> <<"R_" \o ToString(m + k - 1), "RegLan">>]
     IN Cho(<<<<"x", "String">>>>, Exi(bs, And(<<Eq(t, T("str.++", [k \in 1..m |-> L("k_" \o ToString(k - 1))] \o <<L("x")>> \o post))>>
          \o [k \in 1..m |-> InR(L("k_" \o ToString(k - 1)), L("R_" \o ToString(k - 1)))] \o <<InR(L("x"), L("R_" \o ToString(m)))>>
          \o [k \in 1..Len(post) |-> InR(post[k], L("R_" \o ToString(m + k)))])))
ReR2 == {<<Tr(Ca)>>, <<Star(Tr(Cb)), Ac>>}
ReR3 == Fix1 \cup Fix2 \cup {Star(Ac), T("re.opt", <<Tr(Ca)>>), T("re.union", <<Tr(Ca), Tr(StrK(<<0, 1>>))>>)}
UnfX(z0) == UNION {LET k2 == Kc(t, <<1>>, <<>>, 0, 0)  k1 == Kc(t, <<>>, <<k2>>, 0, 0) IN
   {S("re_concat_unfold_pos", <<Prem(InR(t, T("re.++", <<ra, rb>>)))>>, <<And(<<Eq(t, T("str.++", <<k1, k2>>)), And(<<InR(k1, x), And(<<InR(k2, rb), TT>>)>>)>>)>>, <<>>) : x \in {ra, T("re.++", <<ra, rb>>)}}
   : t \in {sa}, ra \in {L("ra"), Ac}, rb \in {L("rb"), Star(Tr(Cb))}}
  \cup {S("re_concat_unfold_pos", <<Prem(InR(sa, ReC([m \in 1..Len(z) |-> Tr(z[m])])))>>, <<Eq(sa, T("str.++", y))>>, <<>>) : z \in {<<Ca, Cb>>, <<Cb, sb, Ca>>}, y \in {<<Ca, Cb>>, <<Ca, Ca>>, <<Ca, sb, Cb>>, <<Cb, Ca>>, <<Cb, sb, Ca>>}}
ReX1(z0) == {S("re_unfold_neg", <<Prem(Not(InR(t, Star(r))))>>, <<NegStar(t, r)>>, <<>>) : t \in CapT, r \in {Tr(Ca), L("ra"), Ac, Tr(Prefix(sb, LL1))}}
ReX2(z0) == {S("re_unfold_neg", <<Prem(Not(InR(t, T("re.++", <<r, L("rb")>>))))>>, <<NegCat(t, r, <<L("rb")>>)>>, <<>>) : t \in CapT \cup {sa}, r \in {Tr(Ca), L("ra"), Ac, Tr(Prefix(sb, LL1))}}
ReX3(z0) == {S("re_unfold_neg_concat_fixed_prefix", <<Prem(Not(InR(sa, ReC(<<r>> \o rs))))>>, <<Or(<<Not(InR(Prefix(sa, N(n)), r)), Not(InR(SuffixRem(sa, N(m)), ReC(rs)))>>)>>, <<>>) : n \in 0..2, m \in 0..2, rs \in ReR2, r \in ReR3}
ReX4(z0) == {S("re_unfold_neg_concat_fixed_suffix", <<Prem(Not(InR(sa, ReC(rs \o <<r>>))))>>, <<Or(<<Not(InR(SuffixL(sa, N(n)), r)), Not(InR(Prefix(sa, Mi(StrL(sa), N(m))), ReC(rs)))>>)>>, <<>>) : n \in 0..2, m \in 0..2, rs \in ReR2, r \in ReR3}
XSt(ph, x, y) == [ph |-> ph, x |-> x, y |-> y]
XInit == st = XSt("start", 0, 0)
SpPre == {<<sa, sb>>, <<sb, Ca>>, <<Ca, sa>>, <<sc, sb>>, <<Ca, sc>>}
FlatSq == SetToSeq(FlatU) SpSq == SetToSeq(SpPre) CpSq == SetToSeq(CpW)
Pairs(q) == {m \in (1..Len(q)) \X (1..Len(q)) : (m[1] + 5 * m[2]) % Parts = Part}
XNext == \/ /\ st.ph = "start"
            /\ \/ Mode \in {"cat", "split"} /\ \E m \in Pairs(FlatSq) : st' = XSt("pair", FlatSq[m[1]], FlatSq[m[2]])
               \/ Mode = "split" /\ \E m \in Pairs(SpSq) : st' = XSt("pair2", SpSq[m[1]], SpSq[m[2]])
               \/ Mode = "cprop" /\ \E m \in Pairs(CpSq) : st' = XSt("pair", CpSq[m[1]], CpSq[m[2]])
               \/ Mode = "cprop" /\ \E x \in DecX(0) \cup LenX(0) : st' = XSt("att", x, 0)
               \/ Mode = "re" /\ \E x \in ReX1(0) \cup ReX2(0) : st' = XSt("att", x, 0)
               \/ Mode = "re" /\ \E x \in ReX3(0) : st' = XSt("att", x, 0)
               \/ Mode = "re" /\ \E x \in ReX4(0) : st' = XSt("att", x, 0)
               \/ Mode = "re" /\ \E x \in UnfX(0) : st' = XSt("att", x, 0)
         \/ /\ st.ph = "pair"
            /\ \E z \in CASE Mode = "cat" -> CatX(st.x, st.y) [] Mode = "split" -> CsX(st.x, st.y) [] OTHER -> CpropX(st.x, st.y) : st' = XSt("att", z, 0)
         \/ /\ st.ph = "pair2"
            /\ \E z \in SpX(st.x, st.y) : st' = XSt("att", z, 0)
XEmit == CASE st.ph = "start" -> PrintT("CASE\tdecl\t" \o DeclS)
           [] st.ph \in {"pair", "pair2"} -> TRUE
           [] OTHER -> LET x == st.x IN RefutedC(x.prem, x.cl) => PrintT("CASE\tbad\t" \o x.r \o "\t" \o Cls(x.prem) \o "\t" \o Cl(x.cl) \o "\t" \o Join(Strs(x.args), " ") \o "\t0")
Init == At!AInit
Next == At!ANext
Emit == At!AEmit
=============================================================================
