------------------------------- MODULE SchedM -------------------------------
(* C07: proofs as trees of commands (rules are not checked here, only how the work is distributed), written
   command by command. A row lists, per command: id, kind, depth of nesting, whether it ends a subproof, the
   number of the subproof it opens, the subproofs that enclose it, and its premises. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxN, MaxDepth, Sim, Rules
VARIABLE st
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* frame: end id, number of commands, ids that can be referred to
Fr(id) == [end |-> id, n |-> 0, ids |-> <<>>, stepped |-> FALSE]
Top == st.fr[Len(st.fr)]
Depth == Len(st.fr) - 1
Chain == [k \in 1..Depth |-> st.fr[k + 1].end]
Vis == UNION {{st.fr[k].ids[m] : m \in 1..Len(st.fr[k].ids)} : k \in 1..Len(st.fr)}
Cmd(id, kind, depth, end, ctx, ch, pr) == id \o "|" \o kind \o "|" \o ToString(depth) \o "|" \o (IF end THEN "1" ELSE "0") \o "|" \o ToString(ctx) \o "|" \o Join(ch, ",") \o "|" \o Join(pr, ",")
Prem(ids) == IF ids = <<>> THEN "" ELSE " :premises (" \o Join(ids, " ") \o ")"
Emit == IF st.n = 0 \/ Depth > 0 \/ (Sim /\ st.n < MaxN - 8) THEN TRUE ELSE PrintT("CASE\ttree\t" \o Join(st.cmds, ";") \o "\t" \o Join(st.ln, ""))
Live == (Sim => Emit) /\ st.n < MaxN
\* the premises of a step: the first, the last, and one in between of what it can see
PremSet == LET m == Len(Top.ids) last == IF m = 0 THEN <<>> ELSE <<Top.ids[m]>>
               out == IF Depth > 0 /\ st.fr[1].ids # <<>> THEN <<st.fr[1].ids[1]>> ELSE <<>>
               mid == IF Depth > 1 /\ st.fr[Depth].ids # <<>> THEN <<st.fr[Depth].ids[Len(st.fr[Depth].ids)]>> ELSE <<>>
           IN {last \o out \o mid}
Asm == Live /\ ~Top.stepped /\ LET id == (IF Depth = 0 THEN "" ELSE Top.end \o ".") \o "h" \o ToString(Top.n) IN
  st' = [st EXCEPT !.n = @ + 1, !.ln = Append(@, "(assume " \o id \o " p)"), !.cmds = Append(@, Cmd(id, "assume", Depth, FALSE, -1, Chain, <<>>)),
                   !.fr[Len(st.fr)].n = @ + 1, !.fr[Len(st.fr)].ids = Append(@, id)]
Step == Live /\ \E r \in Rules : \E pr \in PremSet : LET id == (IF Depth = 0 THEN "" ELSE Top.end \o ".") \o "t" \o ToString(Top.n) IN
  st' = [st EXCEPT !.n = @ + 1, !.ln = Append(@, "(step " \o id \o " (cl p) :rule " \o r \o Prem(pr) \o ")"), !.cmds = Append(@, Cmd(id, "step", Depth, FALSE, -1, Chain, pr)),
                   !.fr[Len(st.fr)].n = @ + 1, !.fr[Len(st.fr)].ids = Append(@, id), !.fr[Len(st.fr)].stepped = TRUE]
Open == Live /\ Depth < MaxDepth /\ LET id == (IF Depth = 0 THEN "" ELSE Top.end \o ".") \o "s" \o ToString(Top.n) IN
  st' = [st EXCEPT !.n = @ + 1, !.ln = Append(@, "(anchor :step " \o id \o ")"), !.cmds = Append(@, Cmd(id, "anchor", Depth + 1, FALSE, st.ctx, Append(Chain, id), <<>>)),
                   !.ctx = @ + 1, !.fr = Append(@, Fr(id))]
Close == (Sim => Emit) /\ Depth > 0 /\ Top.n >= 1 /\ \E r \in Rules : \E pr \in PremSet :
  st' = [st EXCEPT !.n = @ + 1, !.ln = Append(@, "(step " \o Top.end \o " (cl p) :rule " \o r \o Prem(pr) \o ")"), !.cmds = Append(@, Cmd(Top.end, "step", Depth, TRUE, -1, Chain, pr)),
                   !.fr = [SubSeq(@, 1, Depth) EXCEPT ![Depth] = [@ EXCEPT !.n = @ + 1, !.ids = Append(@, Top.end), !.stepped = TRUE]]]
Init == st = [n |-> 0, ln |-> <<>>, cmds |-> <<>>, fr |-> <<Fr("")>>, ctx |-> 0]
Next == Asm \/ Step \/ Open \/ Close
=============================================================================
