------------------------------ MODULE Attempt ------------------------------
(* A derivation attempt: an instance of a documented rule schema, then up to MaxEdits edits of the
   clause, the premises and the arguments. Every reachable attempt is classified by the semantics:
   "ok"  an unedited documented instance (must be entailed: checked here), must be accepted;
   "bad" not entailed, must be rejected whatever the rule. Entailed edited attempts claim nothing. *)
EXTENDS Terms
CONSTANTS DeclText,         \* declarations of the symbols used
          Seeds,            \* set of [r: rule, prem: Seq(clause), cl: clause, args: Seq(term)]
          Pool,             \* replacement terms by sort
          Refuted(_, _),    \* premises, clause -> TRUE iff some model separates them
          MaxEdits, Part, Parts   \* Part/Parts: which share of the seeds to edit (1-in-Parts)
VARIABLE st

SeedSeq == SetToSeq(Seeds)
AInit == st = [ph |-> "start", r |-> "", prem |-> <<>>, cl |-> <<>>, args |-> <<>>, ed |-> 0, ix |-> 0]
Pick == /\ st.ph = "start"
        /\ \E k \in 1..Len(SeedSeq) :
             st' = [ph |-> "att", r |-> SeedSeq[k].r, prem |-> SeedSeq[k].prem, cl |-> SeedSeq[k].cl,
                    args |-> SeedSeq[k].args, ed |-> 0, ix |-> k]
ArgMut(as) == UNION {{ReplaceNth(as, k, x) : x \in MutE(as[k], NoEnv, Pool)} : k \in 1..Len(as)}
EditCl == /\ st.ph = "att" /\ st.ed < MaxEdits /\ st.ix % Parts = Part
          /\ \E c \in MutC(st.cl, Pool) : st' = [st EXCEPT !.cl = c, !.ed = @ + 1]
EditPrem == /\ st.ph = "att" /\ st.ed < MaxEdits /\ st.ix % Parts = Part
            /\ \E k \in 1..Len(st.prem) : \E c \in MutC(st.prem[k], Pool) :
                 st' = [st EXCEPT !.prem[k] = c, !.ed = @ + 1]
DropPrem == /\ st.ph = "att" /\ st.ed < MaxEdits /\ st.ix % Parts = Part
            /\ \E k \in 1..Len(st.prem) : st' = [st EXCEPT !.prem = RemoveNth(st.prem, k), !.ed = @ + 1]
SwapPrem == /\ st.ph = "att" /\ st.ed < MaxEdits /\ st.ix % Parts = Part
            /\ \E k \in 1..(Len(st.prem) - 1) : st' = [st EXCEPT !.prem = SwapNth(st.prem, k), !.ed = @ + 1]
\* editing the arguments alone never makes a conclusion false, so it is only tried on edited attempts
EditArg == /\ st.ph = "att" /\ st.ed \in 1..MaxEdits /\ Len(st.args) > 0 /\ st.ix % Parts = Part
           /\ \E x \in ArgMut(st.args) : st' = [st EXCEPT !.args = x, !.ed = MaxEdits + 1]
ANext == Pick \/ EditCl \/ EditPrem \/ DropPrem \/ SwapPrem \/ EditArg

Row(class) == PrintT("CASE\t" \o class \o "\t" \o st.r \o "\t" \o Cls(st.prem) \o "\t" \o Cl(st.cl) \o "\t" \o
                     Join(Strs(st.args), " ") \o "\t" \o ToString(st.ix))
AEmit == IF st.ph = "start" THEN PrintT("CASE\tdecl\t" \o DeclText)
         ELSE IF st.ed = 0
              THEN /\ Assert(~Refuted(st.prem, st.cl), <<"schema instance not entailed", st.r, Cls(st.prem), Cl(st.cl)>>)
                   /\ Row("ok")
              ELSE IF ClosedC(st.prem, st.cl) /\ Refuted(st.prem, st.cl) THEN Row("bad") ELSE TRUE
=============================================================================
