-------------------------------- MODULE PrintM --------------------------------
(* C23: proofs to print and read again: symbols that need quotes at every position (sym), definitions of constants in nested
   scopes (defs). What a proof says is described by one string per command. *)
EXTENDS Sorts
CONSTANTS Fam, MaxN
VARIABLES t, d
vars == <<t, d>>
\* ------------------------------------------------------------ symbols
Names == {"", "x y", "5", "-5", "-", "--", "-5a", "-a", "5a", "a.b", "let", "forall", "_", "as", "!", "cl", "assume", "a'", "#b1", ":k", "\"", ";", "(", "()", "a b", "@x", "{", "[a]", "a,b", "`", "1.5", "0x", "+", "=a", "~", "true ", "Bool ", " "}
Q(n) == "|" \o n \o "|"
StepD(id, cls, rule, prem, disch) == "step " \o id \o " / " \o Join(cls, " / ") \o " / " \o rule \o " / " \o prem \o " / " \o disch
Tr == "(true)"
Where == {"const", "fun", "bound", "letv", "anchor", "assign", "sort", "sort1", "stepid", "assumeid", "anchorid", "disch1", "disch2", "rule", "def", "named"}
\* <<declarations, proof, description>>
SymRow(w, n) ==
  CASE w = "const" -> <<"(declare-fun " \o Q(n) \o " () Bool)", "(step t (cl " \o Q(n) \o " (not " \o Q(n) \o ")) :rule hole)", <<StepD("t", <<n \o ":Bool", "(not " \o n \o ":Bool)">>, "hole", "", "")>>>>
  [] w = "fun" -> <<"(declare-fun " \o Q(n) \o " (Bool) Bool)", "(step t (cl (" \o Q(n) \o " true)) :rule hole)", <<StepD("t", <<"(@ " \o n \o ":(Func Bool Bool) " \o Tr \o ")">>, "hole", "", "")>>>>
  [] w = "bound" -> <<"", "(step t (cl (forall ((" \o Q(n) \o " Bool)) " \o Q(n) \o ")) :rule hole)", <<StepD("t", <<"(!forall (" \o n \o ":Bool) " \o n \o ":Bool)">>, "hole", "", "")>>>>
  [] w = "letv" -> <<"", "(step t (cl (let ((" \o Q(n) \o " true)) " \o Q(n) \o ")) :rule hole)", <<StepD("t", <<"(!let (" \o n \o "=" \o Tr \o ") " \o n \o ":Bool)">>, "hole", "", "")>>>>
  [] w = "anchor" -> <<"", "(anchor :step t :args ((" \o Q(n) \o " Bool)))(step t.s (cl " \o Q(n) \o ") :rule hole)(step t (cl true) :rule bind)", <<"anchor " \o n \o ":Bool", StepD("t.s", <<n \o ":Bool">>, "hole", "", ""), StepD("t", <<Tr>>, "bind", "", "")>>>>
  [] w = "assign" -> <<"", "(anchor :step t :args ((:= (" \o Q(n) \o " Bool) true)))(step t.s (cl " \o Q(n) \o ") :rule hole)(step t (cl true) :rule bind)", <<"anchor " \o n \o ":Bool:=" \o Tr, StepD("t.s", <<n \o ":Bool">>, "hole", "", ""), StepD("t", <<Tr>>, "bind", "", "")>>>>
  [] w = "sort" -> <<"(declare-sort " \o Q(n) \o " 0)", "(step t (cl (forall ((x " \o Q(n) \o ")) true)) :rule hole)", <<StepD("t", <<"(!forall (x:" \o n \o ") " \o Tr \o ")">>, "hole", "", "")>>>>
  [] w = "sort1" -> <<"(declare-sort " \o Q(n) \o " 1)", "(step t (cl (forall ((x (" \o Q(n) \o " Int))) true)) :rule hole)", <<StepD("t", <<"(!forall (x:(" \o n \o " Int)) " \o Tr \o ")">>, "hole", "", "")>>>>
  [] w = "stepid" -> <<"", "(step " \o Q(n) \o " (cl true) :rule hole)(step t (cl) :rule hole :premises (" \o Q(n) \o "))", <<StepD(n, <<Tr>>, "hole", "", ""), StepD("t", <<>>, "hole", "0,0", "")>>>>
  [] w = "assumeid" -> <<"", "(assume " \o Q(n) \o " true)(step t (cl) :rule hole :premises (" \o Q(n) \o "))", <<"assume " \o n \o " / " \o Tr, StepD("t", <<>>, "hole", "0,0", "")>>>>
  [] w = "anchorid" -> <<"", "(anchor :step " \o Q(n) \o ")(step s (cl true) :rule hole)(step " \o Q(n) \o " (cl true) :rule bind)", <<"anchor", StepD("s", <<Tr>>, "hole", "", ""), StepD(n, <<Tr>>, "bind", "", "")>>>>
  [] w \in {"disch1", "disch2"} -> <<"", "(anchor :step t)(assume " \o Q(n) \o " true)(assume h true)(step t.s (cl true) :rule hole)(step t (cl (not true) true) :rule subproof :discharge (" \o (IF w = "disch1" THEN Q(n) \o " h" ELSE "h " \o Q(n)) \o "))", <<"anchor", "assume " \o n \o " / " \o Tr, "assume h / " \o Tr, StepD("t.s", <<Tr>>, "hole", "", ""), StepD("t", <<"(not " \o Tr \o ")", Tr>>, "subproof", "", IF w = "disch1" THEN "1,0 1,1" ELSE "1,1 1,0")>>>>
  [] w = "rule" -> <<"", "(step t (cl true) :rule " \o Q(n) \o ")", <<StepD("t", <<Tr>>, n, "", "")>>>>
  [] w = "def" -> <<"", "(define-fun " \o Q(n) \o " () Bool (not true))(step t (cl " \o Q(n) \o ") :rule hole)", <<StepD("t", <<"(not " \o Tr \o ")">>, "hole", "", "")>>>>
  [] w = "named" -> <<"", "(step t (cl (! (not true) :named " \o Q(n) \o ") " \o Q(n) \o ") :rule hole)", <<StepD("t", <<"(not " \o Tr \o ")", "(not " \o Tr \o ")">>, "hole", "", "")>>>>
\* the names of operators stand for these
OpNames == {"-", "+", "cl"}
SInit == d = 0 /\ t \in {x \in Where \X Names : ~(x[2] \in OpNames /\ x[1] \in {"const", "fun", "bound", "letv", "anchor", "assign"})}
SEmit == LET r == SymRow(t[1], t[2]) IN PrintT("CASE\tsym\t" \o r[1] \o "\t" \o r[2] \o "\t" \o Join(r[3], " | "))
\* ------------------------------------------------------------ definitions
\* what a name stands for: <<"v", sort>>: a variable or a declared symbol; <<"d", term>>: a definition; <<"no">>: must not be used here
a == V("a", UU)
FA(x) == <<"a", V("f", Fun(<<UU>>, UU)), <<x>>>>
RECURSIVE FV(_)
FV(x) == CASE x[1] = "v" -> {x[2]} [] x[1] = "o" -> UNION {FV(x[3][k]) : k \in 1..Len(x[3])} [] x[1] = "a" -> UNION {FV(x[3][k]) : k \in 1..Len(x[3])}
  [] x[1] = "b" -> FV(x[4]) \ {x[3][k][1] : k \in 1..Len(x[3])} [] OTHER -> {}
\* bind a name: definitions that mention it are out of reach
Under(env, n) == [y \in DOMAIN env \cup {n} |-> IF y = n THEN <<"v", UU>> ELSE IF env[y][1] = "d" /\ n \in FV(env[y][2]) THEN <<"no">> ELSE env[y]]
No == V("no", Bad)
RECURSIVE R2(_, _)
R2(x, env) ==
  CASE x[1] = "n" -> IF x[2] \in DOMAIN env THEN (CASE env[x[2]][1] = "v" -> V(x[2], env[x[2]][2]) [] env[x[2]][1] = "d" -> env[x[2]][2] [] OTHER -> No) ELSE No
  [] x[1] = "f" -> FA(R2(x[2], env))
  [] x[1] = "=" -> O("=", <<R2(x[2], env), R2(x[3], env)>>)
  [] x[1] = "all" -> <<"b", "forall", <<<<x[2], UU>>>>, R2(x[3], Under(env, x[2]))>>
  [] x[1] = "let" -> <<"l", <<<<x[2], R2(x[3], env)>>>>, R2(x[4], Under(env, x[2]))>>
RECURSIVE RT(_)
RT(x) == CASE x[1] = "n" -> x[2] [] x[1] = "f" -> "(f " \o RT(x[2]) \o ")" [] x[1] = "=" -> "(= " \o RT(x[2]) \o " " \o RT(x[3]) \o ")" [] x[1] = "all" -> "(forall ((" \o x[2] \o " U)) " \o RT(x[3]) \o ")" [] x[1] = "let" -> "(let ((" \o x[2] \o " " \o RT(x[3]) \o ")) " \o RT(x[4]) \o ")"
RECURSIVE HasNo(_)
HasNo(x) == CASE x[1] = "v" -> x = No [] x[1] = "o" -> \E k \in 1..Len(x[3]) : HasNo(x[3][k]) [] x[1] = "a" -> \E k \in 1..Len(x[3]) : HasNo(x[3][k]) [] x[1] = "b" -> HasNo(x[4]) [] x[1] = "l" -> HasNo(x[2][1][2]) \/ HasNo(x[3]) [] OTHER -> FALSE
Nm(n) == <<"n", n>>
EqR(x, y) == <<"=", x, y>>
DVals == {Nm("a"), <<"f", Nm("a")>>, <<"f", Nm("c")>>, Nm("c"), Nm("x"), <<"f", Nm("x")>>}
DTerms == {EqR(Nm("c"), Nm("a")), EqR(Nm("d"), <<"f", Nm("a")>>), EqR(<<"f", <<"f", Nm("a")>>>>, Nm("a")), EqR(<<"f", Nm("x")>>, Nm("c")), EqR(<<"f", Nm("a")>>, <<"f", Nm("a")>>),
           <<"all", "a", EqR(<<"f", Nm("a")>>, Nm("a"))>>, <<"all", "a", EqR(<<"f", Nm("a")>>, Nm("d"))>>, <<"all", "c", EqR(<<"f", Nm("a")>>, Nm("c"))>>, <<"all", "d", EqR(Nm("a"), Nm("d"))>>, <<"let", "a", <<"f", Nm("a")>>, EqR(<<"f", Nm("a")>>, Nm("a"))>>, <<"let", "c", <<"f", Nm("a")>>, EqR(<<"f", Nm("a")>>, Nm("c"))>>}
\* t.envs: stack of environments, t.dc: is c declared
DE0(dc) == [y \in (IF dc THEN {"a", "c"} ELSE {"a"}) |-> <<"v", UU>>]
DInit == d = 0 /\ \E dc \in BOOLEAN : t = [envs |-> <<DE0(dc)>>, dc |-> dc, txt |-> <<>>, desc |-> <<>>, last |-> ""]
Dp == Len(t.envs) - 1
Pre == IF Dp = 0 THEN "" ELSE "t."
Env == t.envs[Len(t.envs)]
DDef == \E n \in {"c", "d"}, x \in DVals :
   LET v == R2(x, Env) IN
   /\ ~HasNo(v)
   \* the name of a local variable cannot be used for a definition there
   /\ (IF Dp = 0 THEN TRUE ELSE n # t.last)
   /\ t' = [t EXCEPT !.envs = [k \in 1..Len(@) |-> [y \in DOMAIN @[k] \cup {n} |-> IF y = n THEN (IF k = Len(@) THEN <<"d", v>> ELSE <<"no">>) ELSE @[k][y]]],
                     !.txt = Append(@, "(define-fun " \o n \o " () U " \o RT(x) \o ")")]
DStep == \E x \in DTerms : LET v == R2(x, Env) IN
   /\ ~HasNo(v)
   /\ t' = [t EXCEPT !.txt = Append(@, "(step " \o Pre \o "s" \o ToString(d) \o " (cl " \o RT(x) \o ") :rule hole)"), !.desc = Append(@, StepD(Pre \o "s" \o ToString(d), <<Canon(v)>>, "hole", "", ""))]
DOpen == /\ Dp = 0 /\ t.last = "" /\ \E n \in {"a", "x", "d"} :
            t' = [t EXCEPT !.last = n, !.envs = Append(@, Under(Env, n)), !.txt = Append(@, "(anchor :step t :args ((" \o n \o " U)))"), !.desc = Append(@, "anchor " \o n \o ":U")]
DClose == Dp = 1 /\ \E x \in {EqR(Nm("a"), Nm("a"))} : LET v == R2(x, Env) IN
   t' = [t EXCEPT !.envs = SubSeq(@, 1, 1), !.txt = Append(@, "(step t.z (cl true) :rule hole)(step t (cl " \o RT(x) \o ") :rule bind)"),
                  !.desc = @ \o <<StepD("t.z", <<Tr>>, "hole", "", ""), StepD("t", <<Canon(v)>>, "bind", "", "")>>]
DNext == d < MaxN /\ d' = d + 1 /\ (DDef \/ DStep \/ DOpen \/ DClose)
DEmit == (Dp = 0 /\ d > 1) => PrintT("CASE\tdefs\t" \o (IF t.dc THEN "(declare-fun c () U)" ELSE "") \o "\t" \o Join(t.txt, "") \o "\t" \o Join(t.desc, " | "))
Init == IF Fam = "sym" THEN SInit ELSE DInit
Next == IF Fam = "sym" THEN d < 0 /\ UNCHANGED vars ELSE DNext
Emit == IF Fam = "sym" THEN SEmit ELSE DEmit
=============================================================================
