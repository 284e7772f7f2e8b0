------------------------------- MODULE ProofM -------------------------------
(* C01, C02, C04, C05 (and the generator of C06, C07, C22-C24, C30): a proof written command by command, and the
   checker that reads it. The state holds the text, the open subproofs with their visible commands,
   and what the checker has concluded so far. A literal is <<number of negations, atom>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxN, MaxBad, MaxDepth, MaxHoles, Ign, Sim, Acts, BadFrom
VARIABLE st

P0 == <<0, "p">> P1 == <<1, "p">> Q0 == <<0, "q">> Q1 == <<1, "q">>
OrT == "(or (not p) q)"
Or0 == <<0, OrT>>
F0 == <<0, "false">> F1 == <<1, "false">>
Asserted == {P0, P1, Q1, Or0}
Neg(l) == <<l[1] + 1, l[2]>>
RECURSIVE Lit(_)
Lit(l) == IF l[1] = 0 THEN l[2] ELSE "(not " \o Lit(<<l[1] - 1, l[2]>>) \o ")"
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Cl(c) == IF c = <<>> THEN "(cl)" ELSE "(cl " \o Join([k \in 1..Len(c) |-> Lit(c[k])], " ") \o ")"
\* meaning
Vals == {<<x, y>> : x \in BOOLEAN, y \in BOOLEAN}
Atom(a, v) == CASE a = "p" -> v[1] [] a = "q" -> v[2] [] a = "false" -> FALSE [] a = OrT -> ~v[1] \/ v[2]
Tr(l, v) == IF l[1] % 2 = 0 THEN Atom(l[2], v) ELSE ~Atom(l[2], v)
TrC(c, v) == \E k \in 1..Len(c) : Tr(c[k], v)
Entails(cs, c) == \A v \in Vals : (\A d \in cs : TrC(d, v)) => TrC(c, v)

------------------------------------------------------------------------------
(* the frames of the subproofs being written; frame 1 is the proof itself *)
Frame(id) == [end |-> id, cm |-> <<>>, stepped |-> FALSE, h |-> 0]
Top == st.fr[Len(st.fr)]
Depth == Len(st.fr) - 1
Items == UNION {{st.fr[d].cm[k] : k \in 1..Len(st.fr[d].cm)} : d \in 1..Len(st.fr)}
Visible == {x.id : x \in Items}
Assumed(d) == UNION {{<<st.fr[e].cm[k].cl[1]>> : k \in {m \in 1..Len(st.fr[e].cm) : st.fr[e].cm[m].k = "a"}} : e \in 1..d}
\* what the checker reports if the proof ends here
Verdict == IF st.perr # "" THEN "perr" ELSE IF Depth > 0 THEN "perr" ELSE IF st.err # "" THEN "invalid" ELSE IF ~st.empty THEN "noempty" ELSE IF st.holey THEN "holey" ELSE "valid"
Emit == st.n = 0 \/ (Depth > 0 /\ st.perr = "" /\ st.n < MaxN) \/
        PrintT("CASE\tproof\t" \o Verdict \o "\t" \o (IF Verdict = "invalid" THEN st.err ELSE st.perr) \o "\t" \o Join(st.ln, " "))
Live == (Sim => Emit) /\ st.perr = "" /\ st.n < MaxN
AsSet(c) == {c[k] : k \in 1..Len(c)}

\* write one line; the effect on the checker: `bad` is the reason the checker refuses it ("" if it does not)
Fail(id, bad) == IF st.err # "" \/ bad = "" THEN st.err ELSE id
Push(x, text, bad, holey) ==
  [st EXCEPT !.ln = Append(@, text), !.n = @ + 1, !.fr[Len(st.fr)].cm = Append(@, x), !.fr[Len(st.fr)].stepped = @ \/ x.k # "a",
             !.fr[Len(st.fr)].h = IF x.k = "a" THEN @ + 1 ELSE @, !.all = @ \cup {x.id}, !.err = Fail(x.id, bad),
             !.holey = @ \/ holey, !.empty = @ \/ (x.k # "a" /\ x.cl = <<>> /\ Depth = 0), !.bad = IF bad = "" THEN @ ELSE @ + 1,
             !.sem = @ \/ bad # "" \/ holey]
PErr(text, why) == [st EXCEPT !.ln = Append(@, text), !.n = @ + 1, !.perr = why, !.bad = @ + 1]
Prem(ids) == IF ids = <<>> THEN "" ELSE " :premises (" \o Join(ids, " ") \o ")"
Disch(ids) == IF ids = <<>> THEN "" ELSE " :discharge (" \o Join(ids, " ") \o ")"
StepT(id, c, rule, prem, dis) == "(step " \o id \o " " \o Cl(c) \o " :rule " \o rule \o Prem(prem) \o Disch(dis) \o ")"
AsmT(id, l) == "(assume " \o id \o " " \o Lit(l) \o ")"
HId == IF Depth = 0 THEN (IF Top.h % 2 = 0 THEN "a" ELSE "h") \o ToString(Top.h + 1) ELSE Top.end \o ".h" \o ToString(Top.h + 1)
\* a fresh step id, or one that was used in a subproof that is closed by now
TIds == {"t" \o ToString(st.n + 1)} \cup {x \in st.all \ Visible : \A d \in 1..Len(st.fr) : st.fr[d].end # x}
Item(id, k, c) == [id |-> id, k |-> k, cl |-> c]

\* --- assumptions
Assume == "Assume" \in Acts /\ Live /\ (Depth = 0 \/ ~Top.stepped) /\ \E l \in IF Depth = 0 THEN Asserted ELSE {P0, P1, Q0, Q1, Or0} :
            st' = Push(Item(HId, "a", <<l>>), AsmT(HId, l), "", FALSE)
AssumeBad == "AssumeBad" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Depth = 0 /\ \E l \in {Q0, F0, <<1, OrT>>} : st' = Push(Item(HId, "a", <<l>>), AsmT(HId, l), "assume", FALSE)
AssumeLate == "AssumeLate" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Depth > 0 /\ Top.stepped /\ st' = PErr(AsmT(HId, P0), "late")

\* --- steps: documented instances
Without(c, k) == [m \in 1..(Len(c) - 1) |-> IF m < k THEN c[m] ELSE c[m + 1]]
Dedup(c) == FoldSeq(LAMBDA x, y : IF x \in AsSet(y) THEN y ELSE Append(y, x), <<>>, c)
Resolvents(c, d) == {Dedup(Without(c, m) \o Without(d, k)) : <<m, k>> \in {z \in (1..Len(c)) \X (1..Len(d)) : c[z[1]][2] = d[z[2]][2] /\ (c[z[1]][1] = d[z[2]][1] + 1 \/ d[z[2]][1] = c[z[1]][1] + 1)}}
\* [r: rule, pr: premise ids, c: clause]
Inst(r, pr, c) == [r |-> r, pr |-> pr, c |-> c]
ResI == UNION {{Inst(rl, <<x.id, y.id>>, c) : rl \in {"resolution", "th_resolution"}, c \in Resolvents(x.cl, y.cl)} : x \in Items, y \in Items}
MiscI == {Inst("or", <<x.id>>, <<P1, Q0>>) : x \in {y \in Items : y.cl = <<Or0>>}}
    \cup {Inst("weakening", <<x.id>>, Append(x.cl, l)) : x \in {y \in Items : Len(y.cl) < 2}, l \in {P0, Q1}}
    \cup {Inst("contraction", <<x.id>>, Dedup(x.cl)) : x \in {y \in Items : Dedup(y.cl) # y.cl}}
    \cup {Inst("reordering", <<x.id>>, Reverse(x.cl)) : x \in {y \in Items : Len(y.cl) = 2}}
    \cup {Inst("false", <<>>, <<F1>>)}
Good(id, I, holey) == Push(Item(id, "s", I.c), StepT(id, I.c, I.r, I.pr, <<>>), "", holey)
StepRes == "StepRes" \in Acts /\ Live /\ \E I \in ResI, id \in TIds : st' = Good(id, I, FALSE)
StepMisc == "StepMisc" \in Acts /\ Live /\ \E I \in MiscI, id \in TIds : st' = Good(id, I, FALSE)
LastI == IF Items = {} THEN {} ELSE {IF Top.cm = <<>> THEN CHOOSE x \in Items : TRUE ELSE Top.cm[Len(Top.cm)]}
Concl == {<<>>, <<P0>>, <<P1>>, <<Q0>>, <<P1, Q0>>}
\* rules that check nothing: "mystery" is unknown, "mystery2" and "symm" are allowed by the user
HoleI == {Inst(r, pr, c) : r \in {"hole", "lia_generic", "mystery2", "symm"} \cup (IF Ign THEN {"mystery"} ELSE {}), pr \in {<<>>} \cup {<<x.id>> : x \in LastI}, c \in Concl}
StepHole == "StepHole" \in Acts /\ Live /\ st.holes < MaxHoles /\ \E I \in HoleI : st' = [Good("t" \o ToString(st.n + 1), I, TRUE) EXCEPT !.holes = @ + 1]
\* --- steps the checker must refuse
ClOf(id) == (CHOOSE x \in Items : x.id = id).cl
BadI == {I \in {Inst(r, pr, c) : r \in {"resolution", "weakening"}, pr \in {<<x.id, y.id>> : x \in Items, y \in LastI}, c \in {<<>>, <<Q0>>}}
          \cup {Inst(r, pr, c) : r \in {"contraction", "or", "false", "reordering", "and", "true", "not_symm", "resolution"}, pr \in {<<>>} \cup {<<x.id>> : x \in LastI}, c \in {<<>>, <<Q0, P0>>}} :
            (Cardinality(AsSet(I.pr)) = Len(I.pr)) /\ ~Entails({ClOf(z) : z \in AsSet(I.pr)}, I.c)}
UnkI == IF Ign THEN {} ELSE {Inst("mystery", <<>>, c) : c \in Concl}
Refuse(id, I, dis) == Push(Item(id, "s", I.c), StepT(id, I.c, I.r, I.pr, dis), "rule", FALSE)
StepBad == "StepBad" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ \E I \in BadI \cup UnkI : st' = Refuse("t" \o ToString(st.n + 1), I, <<>>)
\* discharging, or closing by subproof, where there is nothing to close
StepDis == "StepDis" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ \E x \in {y \in Items : y.k = "a"} : \E r \in {"subproof", "weakening"} :
             st' = Refuse("t" \o ToString(st.n + 1), Inst(r, IF r = "weakening" THEN <<x.id>> ELSE <<>>, IF r = "weakening" THEN <<x.cl[1], P0>> ELSE <<Neg(x.cl[1]), x.cl[1]>>), <<x.id>>)
\* --- references that are out of scope, and repeated ids
OutOfScope == (st.all \ Visible) \cup {st.fr[d].end : d \in 2..Len(st.fr)} \cup {"t" \o ToString(st.n + 1), "t" \o ToString(st.n + 2), "nope"}
RefBad == "RefBad" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ \E x \in OutOfScope \ Visible : \E y \in {<<>>} \cup {<<z>> : z \in Visible} : \E c \in {<<>>, <<P0>>} : \E r \in {"hole", "resolution", "mystery2"} :
             st' = PErr(StepT("t" \o ToString(st.n + 1), c, r, y \o <<x>>, <<>>), "ref")
IdBad == "IdBad" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ \E x \in Visible : \E t \in {StepT(x, <<F1>>, "false", <<>>, <<>>)} \cup (IF Top.stepped THEN {} ELSE {AsmT(x, P0)}) : st' = PErr(t, "id")

\* --- subproofs
Open == "Open" \in Acts /\ Live /\ Depth < MaxDepth /\ LET id == "t" \o ToString(st.n + 1) IN
          st' = [st EXCEPT !.ln = Append(@, "(anchor :step " \o id \o ")"), !.n = @ + 1, !.fr = Append(@, Frame(id))]
OpenDup == "OpenDup" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Depth < MaxDepth /\ \E id \in Visible :
          st' = [st EXCEPT !.ln = Append(@, "(anchor :step " \o id \o ")"), !.n = @ + 1, !.fr = Append(@, [Frame(id) EXCEPT !.stepped = FALSE]), !.bad = @ + 1]
Locals == SelectSeq(Top.cm, LAMBDA x : x.k = "a")
Ids(xs) == [k \in 1..Len(xs) |-> xs[k].id]
Negs(xs) == [k \in 1..Len(xs) |-> Neg(xs[k].cl[1])]
Last1 == Top.cm[Len(Top.cm)]
Phi == IF Last1.cl = <<>> THEN F0 ELSE Last1.cl[1]
Outer == Len(st.fr) - 1
CanClose == Live /\ Depth > 0 /\ Len(Top.cm) >= 1 /\ Top.end \notin Visible
\* the closing step: refused with reason `bad`, or accepted
Closed(c, text, bad, holey) ==
  [st EXCEPT !.ln = Append(@, text), !.n = @ + 1, !.all = @ \cup {Top.end}, !.err = Fail(Top.end, bad), !.holey = @ \/ holey,
             !.fr = [SubSeq(@, 1, Outer) EXCEPT ![Outer] = [@ EXCEPT !.cm = Append(@, Item(Top.end, "s", c)), !.stepped = TRUE]],
             !.empty = @ \/ (c = <<>> /\ Outer = 1), !.bad = IF bad = "" THEN @ ELSE @ + 1, !.sem = @ \/ bad # "" \/ holey]
\* names for the discharged assumptions: absolute, or relative to the closing step
Shorts(xs) == [k \in 1..Len(xs) |-> "h" \o ToString(k)]
CloseSub == "CloseSub" \in Acts /\ CanClose /\ Len(Last1.cl) <= 1 /\ LET c == Negs(Locals) \o <<Phi>> IN
              \E dis \in {Ids(Locals), Shorts(Locals)} : st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, dis), "", FALSE)
CloseOther == "CloseOther" \in Acts /\ CanClose /\ Locals = <<>> /\ \E I \in ResI \cup MiscI : st' = Closed(I.c, StepT(Top.end, I.c, I.r, I.pr, <<>>), "", FALSE)
CloseHole == "CloseHole" \in Acts /\ CanClose /\ st.holes < MaxHoles /\ \E I \in {I2 \in HoleI : Locals = <<>> \/ I2.r \in {"mystery2", "symm"} \/ (I2.r = "mystery" /\ Ign)} :
               st' = [Closed(I.c, StepT(Top.end, I.c, I.r, I.pr, <<>>), "", TRUE) EXCEPT !.holes = @ + 1]
\* an assumption left undischarged, a wrong negation, a wrong conclusion, a conclusion without its negations, the wrong rule
CloseBad == "CloseBad" \in Acts /\ CanClose /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Len(Last1.cl) <= 1 /\
  \/ \E k \in 1..Len(Locals) : LET xs == Without(Locals, k) c == Negs(xs) \o <<Phi>> IN st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(xs)), "undischarged", FALSE)
  \/ \E k \in 1..Len(Locals) : \E x \in {y \in Items : y.k = "a" /\ y.id \notin AsSet(Ids(Locals)) \cup AsSet(Shorts(Locals))} :
       LET xs == [Locals EXCEPT ![k] = x] c == Negs(xs) \o <<Phi>> IN st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(xs)), "undischarged", FALSE)
  \/ \E k \in 1..Len(Locals) : LET c == Without(Negs(Locals), k) \o <<Phi>> IN st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(Locals)), "clause", FALSE)
  \/ \E k \in 1..Len(Locals) : LET c == [Negs(Locals) EXCEPT ![k] = Locals[k].cl[1]] \o <<Phi>> IN st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(Locals)), "clause", FALSE)
  \/ \E l \in {P0, Q0, F0, Neg(Phi)} \ {Phi} : LET c == Negs(Locals) \o <<l>> IN ~Entails({<<Phi>>}, c) /\ st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(Locals)), "clause", FALSE)
  \/ Locals # <<>> /\ st' = Closed(Negs(Locals), StepT(Top.end, Negs(Locals), "subproof", <<>>, Ids(Locals)), "clause", FALSE)
  \/ Locals # <<>> /\ \E I \in {I2 \in ResI \cup MiscI \cup HoleI : I2.r \notin {"mystery", "mystery2", "symm"}} : st' = Closed(I.c, StepT(Top.end, I.c, I.r, I.pr, <<>>), "undischarged", FALSE)
  \/ Locals # <<>> /\ \E I \in {I2 \in ResI \cup MiscI \cup HoleI : I2.r \notin {"mystery2", "symm"}} : st' = Closed(I.c, StepT(Top.end, I.c, I.r, I.pr, Ids(Locals)), "discharge in wrong rule", FALSE)
  \/ \E x \in {y \in Items : y.k = "s"} : LET c == Negs(Locals) \o <<Neg(IF x.cl = <<>> THEN F0 ELSE x.cl[1]), Phi>> IN st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(Locals) \o <<x.id>>), "not an assumption", FALSE)
CloseLong == "CloseLong" \in Acts /\ CanClose /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Len(Last1.cl) > 1 /\ \E c \in {Negs(Locals) \o Last1.cl, Negs(Locals) \o <<Last1.cl[1]>>} :
               st' = Closed(c, StepT(Top.end, c, "subproof", <<>>, Ids(Locals)), "long", FALSE)
CloseEmpty == "CloseEmpty" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Depth > 0 /\ Top.cm = <<>> /\ \E r \in {"hole", "false"} : st' = PErr(StepT(Top.end, <<F1>>, r, <<>>, <<>>), "empty subproof")
CloseRep == "CloseRep" \in Acts /\ Live /\ Depth > 0 /\ Top.end \in Visible /\ st' = PErr(StepT(Top.end, <<F1>>, "false", <<>>, <<>>), "id")
CloseAsm == "CloseAsm" \in Acts /\ Live /\ st.n >= BadFrom /\ st.bad < MaxBad /\ Depth > 0 /\ Top.end \notin Visible /\ Len(Top.cm) >= 1 /\ st' = PErr(AsmT(Top.end, P0), "closed by an assumption")
DisBad == "DisBad" \in Acts /\ CanClose /\ st.n >= BadFrom /\ st.bad < MaxBad /\ \E x \in {"nope", Top.end} : LET c == Negs(Locals) \o <<P1, Phi>> IN st' = PErr(StepT(Top.end, c, "subproof", <<>>, Ids(Locals) \o <<x>>), "ref")

Init == st = [ln |-> <<>>, n |-> 0, fr |-> <<Frame("")>>, all |-> {}, err |-> "", perr |-> "", holey |-> FALSE, empty |-> FALSE, bad |-> 0, holes |-> 0, sem |-> FALSE]
Next == \/ Assume \/ AssumeBad \/ AssumeLate \/ StepRes \/ StepMisc \/ StepHole \/ StepBad \/ StepDis \/ RefBad \/ IdBad
        \/ Open \/ OpenDup \/ CloseSub \/ CloseOther \/ CloseHole \/ CloseBad \/ CloseLong \/ CloseEmpty \/ CloseRep \/ CloseAsm \/ DisBad

\* every command follows from the assertions and the assumptions of the subproofs it is in; a valid proof is a refutation
Sound == st.sem \/ st.perr # "" \/
         /\ \A d \in 1..Len(st.fr) : \A k \in 1..Len(st.fr[d].cm) : Entails(Assumed(d), st.fr[d].cm[k].cl)
         /\ Assumed(1) \subseteq {<<l>> : l \in Asserted}
         /\ Verdict = "valid" => ~(\E v \in Vals : \A l \in Asserted : Tr(l, v))
Problem == "(declare-fun p () Bool)(declare-fun q () Bool)(assert p)(assert (not p))(assert (not q))(assert (or (not p) q))"
=============================================================================
