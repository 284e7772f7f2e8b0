------------------------------- MODULE SchedT -------------------------------
(* C07: what the real scheduler handed out, replayed against the specification of a distribution of the work.
   A trace: cmds (the tree, in proof order), loads (per worker, the events its iterator yields), usage (how often
   each subproof's context is announced to be used). A worker may be given a command only while exactly the
   subproofs that enclose the command are open for it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS File
VARIABLES t, w, pos, open, prev
Traces == ndJsonDeserialize(File)
vars == <<t, w, pos, open, prev>>
Tr == Traces[t]
\* index of a command
Idx(tr, id, kind) == CHOOSE k \in 1..Len(tr.cmds) : tr.cmds[k].id = id /\ (tr.cmds[k].kind = "anchor") = (kind = "anchor")
Known(tr, e) == \E k \in 1..Len(tr.cmds) : tr.cmds[k].id = e.id /\ tr.cmds[k].kind = e.kind
Init == /\ t \in 1..Len(Traces) /\ w \in 0..Len(Traces[t].loads) /\ pos = 1 /\ open = <<>> /\ prev = 0
Ev == Tr.loads[w][pos]
Cut(n) == IF Len(open) <= n THEN open ELSE SubSeq(open, 1, n)
Why == IF ~Known(Tr, Ev) THEN "a command that is not in the proof"
       ELSE LET k == Idx(Tr, Ev.id, Ev.kind) c == Tr.cmds[k] IN
        IF Ev.kind = "anchor"
        THEN IF Ev.depth # c.depth \/ Append(Cut(Ev.depth - 1), Ev.id) # c.chain THEN "a subproof opened in the wrong place"
             ELSE IF Ev.ctx # c.ctx THEN "a subproof with the context of another" ELSE ""
        ELSE IF Ev.depth # c.depth \/ Cut(Ev.depth) # c.chain THEN "a command checked outside its subproof"
             ELSE IF Ev.end # c.end THEN "the end of a subproof misjudged"
             ELSE IF Ev.prem # c.prem THEN "a premise that is another command"
             ELSE IF k <= prev THEN "commands out of order" ELSE ""
Step == /\ w > 0 /\ pos <= Len(Tr.loads[w]) /\ Why = ""
        /\ open' = IF Ev.kind = "anchor" THEN Append(Cut(Ev.depth - 1), Ev.id) ELSE Cut(Ev.depth)
        /\ prev' = IF Ev.kind = "anchor" THEN prev ELSE Idx(Tr, Ev.id, Ev.kind)
        /\ pos' = pos + 1 /\ UNCHANGED <<t, w>>
Next == Step
Occ(tr, P(_)) == LET all == UNION {{<<v, m>> : m \in 1..Len(tr.loads[v])} : v \in 1..Len(tr.loads)} IN Cardinality({x \in all : P(tr.loads[x[1]][x[2]])})
GlobalWhy(tr) ==
  IF \E k \in 1..Len(tr.cmds) : tr.cmds[k].kind # "anchor" /\ Occ(tr, LAMBDA e : e.id = tr.cmds[k].id /\ e.kind = tr.cmds[k].kind) # 1 THEN "a command not assigned exactly once"
  ELSE IF \E k \in 1..Len(tr.cmds) : tr.cmds[k].kind = "anchor" /\ Occ(tr, LAMBDA e : e.kind = "anchor" /\ e.id = tr.cmds[k].id) # tr.usage[tr.cmds[k].ctx + 1] THEN "the announced use of a context is wrong"
  ELSE ""
Report(why) == why = "" \/ PrintT("CASE\tbad\t" \o ToString(t) \o "\t" \o ToString(w) \o "\t" \o ToString(pos) \o "\t" \o why)
Emit == IF w = 0 THEN Report(GlobalWhy(Tr)) ELSE IF pos <= Len(Tr.loads[w]) THEN Report(Why) ELSE TRUE
=============================================================================
