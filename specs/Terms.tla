------------------------------- MODULE Terms -------------------------------
(* Terms as uniform records [o: operator or leaf name, n, w: numbers, a: arguments], their
   SMT-LIB text, their sorts, and the one-edit mutants of terms and clauses.
   Naming convention for the leaves (see Sig): p.. Bool, a.. U, i.. Int, u.. Real. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

T(o, a) == [o |-> o, n |-> 0, w |-> 0, a |-> a]
L(o)    == T(o, <<>>)                                     \* a leaf
NumLit(k)  == [o |-> "#lit", n |-> k, w |-> 0, a |-> <<>>]   \* integer constant written as one literal, like -3
N(k)    == [o |-> "#int", n |-> k, w |-> 0, a |-> <<>>]   \* integer constant
R(k, d) == [o |-> "#real", n |-> k, w |-> d, a |-> <<>>]  \* rational constant k/d
BVc(v, w) == [o |-> "#bv", n |-> v, w |-> w, a |-> <<>>]  \* bit-vector constant
BVx(o, w) == [o |-> o, n |-> 0, w |-> w, a |-> <<>>]      \* bit-vector variable
Ix(o, n, w, a) == [o |-> o, n |-> n, w |-> w, a |-> a]    \* indexed operator

Not(t) == T("not", <<t>>)
And(a) == T("and", a)
Or(a)  == T("or", a)
Xor(s, t) == T("xor", <<s, t>>)
Imp(s, t) == T("=>", <<s, t>>)
Eq(s, t)  == T("=", <<s, t>>)
Ite(c, s, t) == T("ite", <<c, s, t>>)
TT == L("true")
FF == L("false")
\* quantifiers and choice: bs is a sequence of <<name, sort>>
Bnd(o, bs, body) == [o |-> o, n |-> Len(bs), w |-> 0,
                     a |-> [k \in 1..Len(bs) |-> T(bs[k][1], <<L(bs[k][2])>>)] \o <<body>>]
All(bs, body) == Bnd("forall", bs, body)
Exi(bs, body) == Bnd("exists", bs, body)
Cho(bs, body) == Bnd("choice", bs, body)
\* let: bs is a sequence of <<name, term>>
Let(bs, body) == [o |-> "let", n |-> Len(bs), w |-> 0,
                  a |-> [k \in 1..Len(bs) |-> T(bs[k][1], <<bs[k][2]>>)] \o <<body>>]

Binders == {"forall", "exists", "choice", "lambda"}
Indexed1 == {"extract1", "zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat", "re.^"}
\* string constant: n encodes its letters in base 4, w is its length
ChrS == <<"a", "b", "c", "\\u{e9}">>
RECURSIVE StrDec(_, _)
StrDec(n, w) == IF w = 0 THEN <<>> ELSE Append(StrDec(n \div 4, w - 1), n % 4)
StrC(n, w) == [o |-> "#str", n |-> n, w |-> w, a |-> <<>>]
StrK(s) == StrC(FoldLeft(LAMBDA acc, x : 4 * acc + x, 0, s), Len(s))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

IntS(k) == IF k < 0 THEN "(- " \o ToString(-k) \o ")" ELSE ToString(k)
RatS(k, d) == LET m == IF k < 0 THEN -k ELSE k
                  fr == (m % d) * (1000 \div d)
                  s == IF d = 1 THEN ToString(m) \o ".0"
                       ELSE IF 1000 % d = 0
                       THEN ToString(m \div d) \o "." \o (IF fr < 10 THEN "00" ELSE IF fr < 100 THEN "0" ELSE "") \o ToString(fr)
                       ELSE "(/ " \o ToString(m) \o ".0 " \o ToString(d) \o ".0)"
              IN IF k < 0 THEN "(- " \o s \o ")" ELSE s

RECURSIVE Str(_)
Str(t) ==
  LET args == Join([k \in 1..Len(t.a) |-> Str(t.a[k])], " ")
      vars == Join([k \in 1..t.n |-> "(" \o t.a[k].o \o " " \o Str(t.a[k].a[1]) \o ")"], " ")
  IN CASE t.o = "#int"  -> IntS(t.n)
       [] t.o = "#lit"  -> ToString(t.n)
       [] t.o = "#real" -> RatS(t.n, t.w)
       [] t.o = "#str"  -> "\"" \o Join([k \in 1..t.w |-> ChrS[StrDec(t.n, t.w)[k] + 1]], "") \o "\""
       [] t.o = "#bv"   -> "(_ bv" \o ToString(t.n) \o " " \o ToString(t.w) \o ")"
       [] t.o \in Binders \cup {"let"} -> "(" \o t.o \o " (" \o vars \o ") " \o Str(t.a[Len(t.a)]) \o ")"
       [] t.o = "extract" -> "((_ extract " \o ToString(t.n) \o " " \o ToString(t.w) \o ") " \o args \o ")"
       [] t.o \in Indexed1 \cup {"@bit_of", "@int_of", "int_to_bv"} -> "((_ " \o t.o \o " " \o ToString(t.n) \o ") " \o args \o ")"
       [] t.o = "re.loop" -> "((_ re.loop " \o ToString(t.n) \o " " \o ToString(t.w) \o ") " \o args \o ")"
       [] t.a = <<>> -> t.o
       [] OTHER -> "(" \o t.o \o " " \o args \o ")"

Strs(ts) == [k \in 1..Len(ts) |-> Str(ts[k])]
Cl(c)  == IF c = <<>> THEN "(cl)" ELSE "(cl " \o Join(Strs(c), " ") \o ")"
Cls(cs) == Join([k \in 1..Len(cs) |-> Cl(cs[k])], " ;; ")

------------------------------------------------------------------------------
(* Sorts *)
Sig == [p |-> "Bool", q |-> "Bool", r |-> "Bool", s |-> "Bool", p1 |-> "Bool", p2 |-> "Bool", p3 |-> "Bool", p4 |-> "Bool",
        p5 |-> "Bool", p6 |-> "Bool",
        a |-> "U", b |-> "U", c |-> "U", d |-> "U", e |-> "U",
        i |-> "Int", j |-> "Int", k |-> "Int", l |-> "Int",
        u |-> "Real", v |-> "Real", w |-> "Real",
        sa |-> "String", sb |-> "String", sc |-> "String", sd |-> "String", ra |-> "RegLan", rb |-> "RegLan", L |-> "Int"]
FSig == [f |-> "U", f2 |-> "U", g |-> "U", P |-> "Bool", Q |-> "Bool", h |-> "U", H |-> "Bool", ff |-> "Int", fr |-> "Real"]
Decl == "(declare-sort U 0)" \o
        "(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun r () Bool)(declare-fun s () Bool)" \o
        "(declare-fun p1 () Bool)(declare-fun p2 () Bool)(declare-fun p3 () Bool)(declare-fun p4 () Bool)(declare-fun p5 () Bool)(declare-fun p6 () Bool)" \o
        "(declare-fun a () U)(declare-fun b () U)(declare-fun c () U)(declare-fun d () U)(declare-fun e () U)" \o
        "(declare-fun i () Int)(declare-fun j () Int)(declare-fun k () Int)(declare-fun l () Int)" \o
        "(declare-fun u () Real)(declare-fun v () Real)(declare-fun w () Real)" \o
        "(declare-fun f (U) U)(declare-fun f2 (U) U)(declare-fun g (U U) U)(declare-fun P (U) Bool)(declare-fun Q (U U) Bool)" \o
        "(declare-fun h (Bool) U)(declare-fun H (Bool Bool) Bool)(declare-fun ff (Int) Int)(declare-fun fr (Real) Real)"

BoolOps == {"not", "and", "or", "xor", "=>", "=", "distinct", "forall", "exists", "true", "false", "<", ">", "<=", ">=",
            "is_int", "int.ispow2", "str.in_re", "str.prefixof", "str.suffixof", "str.contains", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "@bit_of"}
BvOps == {"bvnot", "bvneg", "bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvadd", "bvmul", "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem",
          "bvsmod", "bvshl", "bvlshr", "bvashr", "bvcomp", "concat", "extract", "zero_extend", "sign_extend", "rotate_left", "rotate_right",
          "repeat", "int_to_bv", "@bv", "@bbterm", "@pbbterm"}
ReOps == {"re.none", "re.all", "re.allchar", "str.to_re", "re.++", "re.union", "re.inter", "re.*", "re.+", "re.opt", "re.comp", "re.diff", "re.range"}
RECURSIVE WidthE(_)
WidthE(t) ==
  CASE t.a = <<>> -> t.w
    [] t.o = "concat" -> FoldSeq(LAMBDA x, y : WidthE(x) + y, 0, t.a)
    [] t.o = "extract" -> t.n - t.w + 1
    [] t.o \in {"zero_extend", "sign_extend"} -> t.n + WidthE(t.a[1])
    [] t.o = "repeat" -> t.n * WidthE(t.a[1])
    [] t.o = "bvcomp" -> 1
    [] t.o \in {"@bbterm", "@pbbterm"} -> Len(t.a)
    [] t.o = "int_to_bv" -> t.n
    [] t.o = "@bv" -> t.a[2].n
    [] t.o = "ite" -> WidthE(t.a[2])
    [] OTHER -> WidthE(t.a[1])

\* env: function from bound names to sort names
RECURSIVE SortE(_, _)
SortE(t, env) ==
  CASE t.o \in BoolOps -> "Bool"
    [] t.o = "ite" -> SortE(t.a[2], env)
    [] t.o \in {"#int", "#lit"} -> "Int"
    [] t.o = "#real" -> "Real"
    [] t.o = "#bv" -> "BV" \o ToString(t.w)
    [] t.o \in {"#str", "str.++", "str.substr", "str.at"} -> "String"
    [] t.o = "str.len" -> "Int"
    [] t.o \in ReOps -> "RegLan"
    [] t.o \in BvOps -> "BV" \o ToString(WidthE(t))
    [] t.o = "choice" -> t.a[1].a[1].o
    [] t.o = "let" -> SortE(t.a[Len(t.a)], [k \in {t.a[m].o : m \in 1..t.n} |->
                         SortE(t.a[CHOOSE m \in 1..t.n : t.a[m].o = k].a[1], env)] @@ env)
    [] t.o \in {"+", "-", "*"} -> SortE(t.a[1], env)
    [] t.o \in {"div", "mod", "abs", "to_int", "ubv_to_int", "sbv_to_int", "@bvsize", "@int_of", "int.pow2", "int.log2"} -> "Int"
    [] t.o \in {"/", "to_real"} -> "Real"
    [] t.a = <<>> /\ t.w > 0 -> "BV" \o ToString(t.w)
    [] t.a = <<>> -> IF t.o \in DOMAIN env THEN env[t.o] ELSE IF t.o \in DOMAIN Sig THEN Sig[t.o] ELSE "?"
    [] t.o \in DOMAIN FSig -> FSig[t.o]
    [] OTHER -> "?"
NoEnv == [k \in {} |-> ""]
SortOf(t) == SortE(t, NoEnv)
BinderEnv(t, env) == IF t.o \in Binders
                     THEN [nm \in {t.a[m].o : m \in 1..t.n} |-> t.a[CHOOSE m \in 1..t.n : t.a[m].o = nm].a[1].o] @@ env
                     ELSE IF t.o = "let"
                     THEN [nm \in {t.a[m].o : m \in 1..t.n} |-> SortE(t.a[CHOOSE m \in 1..t.n : t.a[m].o = nm].a[1], env)] @@ env
                     ELSE env

------------------------------------------------------------------------------
(* One-edit mutants *)
RemoveNth(s, k) == [m \in 1..(Len(s) - 1) |-> IF m < k THEN s[m] ELSE s[m + 1]]
ReplaceNth(s, k, x) == [s EXCEPT ![k] = x]
InsertNth(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
SwapNth(s, k) == [m \in 1..Len(s) |-> IF m = k THEN s[k + 1] ELSE IF m = k + 1 THEN s[k] ELSE s[m]]

OpClass(t, env) ==
  CASE t.o \in {"and", "or"} -> {"and", "or"}
    [] t.o \in {"xor", "=>"} -> {"and", "or", "xor", "=>", "="}
    [] t.o = "=" -> IF SortE(t.a[1], env) = "Bool" THEN {"=", "xor", "=>", "distinct"} ELSE {"=", "distinct"}
    [] t.o = "distinct" -> {"=", "distinct"}
    [] t.o \in {"<", ">", "<=", ">="} -> {"<", ">", "<=", ">="}
    [] t.o \in {"+", "-", "*"} -> {"+", "-", "*"}
    [] t.o \in {"div", "mod"} -> {"div", "mod"}
    [] t.o \in {"bvand", "bvor", "bvxor"} -> {"bvand", "bvor", "bvxor"}
    [] t.o \in {"bvadd", "bvmul"} -> {"bvadd", "bvmul"}
    [] t.o \in {"bvnot", "bvneg"} -> {"bvnot", "bvneg"}
    [] t.o \in {"bvult", "bvule", "bvslt", "bvsle"} -> {"bvult", "bvule", "bvslt", "bvsle"}
    [] t.o \in {"bvshl", "bvlshr", "bvashr"} -> {"bvshl", "bvlshr", "bvashr"}
    [] t.o \in {"forall", "exists"} -> {"forall", "exists"}
    [] t.o \in {"re.++", "re.union", "re.inter"} -> {"re.++", "re.union", "re.inter"}
    [] t.o \in {"re.*", "re.+", "re.opt", "re.comp"} -> {"re.*", "re.+", "re.opt", "re.comp"}
    [] OTHER -> {}
VarArity == {"and", "or", "xor", "=>", "distinct", "+", "-", "*", "bvand", "bvor", "bvadd", "bvmul", "bvxor", "str.++", "re.++", "re.union", "re.inter"}

\* Pool: function from sort names to replacement terms; bound variables in scope are added
PoolAt(Pool, so, env) == (IF so \in DOMAIN Pool THEN Pool[so] ELSE {}) \cup {L(k) : k \in {z \in DOMAIN env : env[z] = so}}
\* names a bound variable may be changed to (of sort U unless the variable itself is declared)
BNames == {"x", "y", "a"}
RECURSIVE MutE(_, _, _)
MutE(t, env, Pool) ==
  LET so == SortE(t, env)
      m  == Len(t.a)
      env2 == BinderEnv(t, env)
      first == IF t.o \in Binders THEN t.n + 1 ELSE 1
      sub(k) == IF t.o = "let" /\ k <= t.n
                THEN {T(t.a[k].o, <<x>>) : x \in MutE(t.a[k].a[1], env, Pool)}
                ELSE MutE(t.a[k], env2, Pool)
  IN  (PoolAt(Pool, so, env) \ {t})
      \cup (IF so = "Bool" THEN {Not(t)} ELSE {})
      \cup (IF t.o = "not" THEN {t.a[1]} ELSE {})
      \cup (IF t.o \in {"#int", "#lit"} THEN {[t EXCEPT !.n = t.n + 1], [t EXCEPT !.n = t.n - 1], [t EXCEPT !.n = -t.n]} \ {t} ELSE {})
      \cup (IF t.o = "#real" THEN {R(t.n + 1, t.w), R(-t.n, t.w), R(t.n, t.w + 1)} \ {t} ELSE {})
      \cup {[t EXCEPT !.o = x] : x \in OpClass(t, env) \ {t.o}}
      \cup UNION {{[t EXCEPT !.a[k] = x] : x \in sub(k)} : k \in first..m}
      \cup (IF t.o \in VarArity /\ m >= 3 THEN {[t EXCEPT !.a = RemoveNth(t.a, k)] : k \in 1..m} ELSE {})
      \cup (IF t.o \in VarArity \cup {"=", "ite", "concat", "@bbterm", "@pbbterm", "<", "<=", ">", ">=", "bvult", "bvsub", "div", "mod"} \cup DOMAIN FSig /\ t.o \notin Binders
            THEN {x \in {[t EXCEPT !.a = SwapNth(t.a, k)] : k \in 1..(m - 1)} : 
                      (t.o # "ite" \/ SortE(x.a[1], env) = "Bool") /\ (t.o # "concat" \/ \A z \in 1..m : SortE(t.a[z], env) = SortE(t.a[1], env))} ELSE {})
      \cup (IF t.o \in VarArity THEN {[t EXCEPT !.a = Append(t.a, t.a[k])] : k \in 1..m} ELSE {})
      \cup (IF t.o \in VarArity THEN {[t EXCEPT !.a = Append(t.a, x)] : x \in PoolAt(Pool, SortE(t.a[1], env), env)} ELSE {})
      \cup (IF t.o \in {"forall", "exists"} /\ t.n >= 2
            THEN {[t EXCEPT !.n = t.n - 1, !.a = RemoveNth(t.a, k)] : k \in 1..t.n} ELSE {})
      \cup (IF t.o \in {"forall", "exists"} THEN {t.a[m]} ELSE {})
      \cup (IF t.o \in Binders \cup {"let"} THEN UNION {{[t EXCEPT !.a[k].o = x] : x \in BNames \ {t.a[k].o}} : k \in 1..t.n} ELSE {})
      \cup (IF t.o \in {"extract", "rotate_left", "rotate_right", "@bit_of", "@int_of"} /\ t.a[1].a = <<>>
            THEN {[t EXCEPT !.n = z] : z \in (0..(WidthE(t.a[1]) - 1)) \ {t.n}} \cap {z \in {[t EXCEPT !.n = z2] : z2 \in 0..64} :
                   t.o # "extract" \/ WidthE(z) = WidthE(t)} ELSE {})

MutC(c, Pool) ==
      UNION {{ReplaceNth(c, k, x) : x \in MutE(c[k], NoEnv, Pool)} : k \in 1..Len(c)}
      \cup {RemoveNth(c, k) : k \in 1..Len(c)}
      \cup {SwapNth(c, k) : k \in 1..(Len(c) - 1)}
      \cup {Append(c, x) : x \in Pool["Bool"]}
      \cup {Append(c, c[k]) : k \in 1..Len(c)}

------------------------------------------------------------------------------
(* Symbols of terms *)
RECURSIVE SymsE(_, _)
SymsE(t, bound) ==
  LET b2 == IF t.o \in Binders \cup {"let"} THEN bound \cup {t.a[m].o : m \in 1..t.n} ELSE bound
      lo == IF t.o \in Binders THEN t.n + 1 ELSE 1
  IN (IF t.o \in DOMAIN FSig \/ (t.a = <<>> /\ t.o \notin {"true", "false", "#int", "#lit", "#real", "#bv", "#str"} \cup ReOps /\ t.o \notin bound) THEN {t.o} ELSE {})
     \cup UNION {IF t.o = "let" /\ k <= t.n THEN SymsE(t.a[k].a[1], bound) ELSE SymsE(t.a[k], b2) : k \in lo..Len(t.a)}
SymsC(c) == UNION {SymsE(c[k], {}) : k \in 1..Len(c)}

\* x, y, z, x0.. are only ever bound variables
XVars == {"x", "y", "z", "x0", "x1", "x2", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9"}
ClosedC(prem, c) == SymsC(c) \cap XVars = {} /\ \A k \in 1..Len(prem) : SymsC(prem[k]) \cap XVars = {}

RECURSIVE Size(_)
Size(t) == 1 + (IF t.a = <<>> THEN 0 ELSE FoldSeq(LAMBDA x, y : Size(x) + y, 0, t.a))
=============================================================================
