-------------------------------- MODULE ParM --------------------------------
(* C06: the workers of the parallel checker. Given the loads the scheduler handed out, the machine interleaves
   the workers between the points where they touch what they share: the use counts of the subproof contexts
   (a pop reads a count, then writes it back), the contexts themselves, and the flag that tells the others to
   stop. Every interleaving ends with the verdict of the sequential checker. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS File, MaxLen
VARIABLES t, w, cnt, alive, abort, order, ok
Traces == ndJsonDeserialize(File)
Tr == Traces[t]
NW == Len(Tr.loads)
vars == <<t, w, cnt, alive, abort, order, ok>>
\* worker: next event, point it waits at, its stack of contexts, depth of its last command, value read by a pop, result
W0(k) == [pos |-> 1, at |-> IF Tr.loads[k] = <<>> THEN "done" ELSE "command", stk |-> <<>>, last |-> 0, rem |-> 0, res |-> "ok"]
Init == /\ t \in {k \in 1..Len(Traces) : Traces[k].len <= MaxLen}
        /\ w = [k \in 1..NW |-> W0(k)] /\ cnt = Tr.usage /\ alive = [k \in 1..Len(Tr.usage) |-> FALSE] /\ abort = FALSE /\ order = <<>> /\ ok = ""
Ev(k) == Tr.loads[k][w[k].pos]
MustPop(x, e) == x.last > e.depth \/ (x.last = e.depth /\ e.kind = "anchor")
\* run the command itself, with worker state x, contexts al
Exec(k, x, al, ab) ==
  LET e == Ev(k)
      x2 == IF e.kind = "anchor" THEN [x EXCEPT !.stk = Append(@, e.ctx + 1), !.last = e.depth] ELSE [x EXCEPT !.last = e.depth]
      al2 == IF e.kind = "anchor" THEN [al EXCEPT ![e.ctx + 1] = TRUE] ELSE al
      dead == \E m \in 1..Len(x2.stk) : ~al2[x2.stk[m]]
      end == e.bad \/ ab \/ x.pos = Len(Tr.loads[k])
  IN /\ w' = [w EXCEPT ![k] = [x2 EXCEPT !.pos = @ + 1, !.at = IF end THEN "done" ELSE "command", !.res = IF e.bad THEN "err" ELSE @]]
     /\ alive' = al2 /\ abort' = (ab \/ e.bad)
     /\ ok' = IF ok # "" THEN ok ELSE IF dead THEN "a context was dropped while in use" ELSE IF e.kind # "anchor" /\ Len(x2.stk) # e.depth THEN "a command in the wrong context" ELSE ""
\* read the count, and wait at the point before writing it back
StartPop(k, x) == /\ w' = [w EXCEPT ![k] = [x EXCEPT !.at = "pop", !.rem = cnt'[x.stk[Len(x.stk)]] - 1, !.last = @ - 1]]
                  /\ ok' = IF ok # "" THEN ok ELSE IF cnt'[x.stk[Len(x.stk)]] < 1 THEN "a context used more often than announced" ELSE ""
Worker(k) ==
  \/ w[k].at = "command" /\ ~MustPop(w[k], Ev(k)) /\ Exec(k, w[k], alive, abort) /\ UNCHANGED cnt
  \/ w[k].at = "command" /\ MustPop(w[k], Ev(k)) /\ UNCHANGED cnt /\ StartPop(k, w[k]) /\ UNCHANGED <<alive, abort>>
  \/ /\ w[k].at = "pop"
     /\ LET c == w[k].stk[Len(w[k].stk)] x == [w[k] EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
            al == IF w[k].rem = 0 THEN [alive EXCEPT ![c] = FALSE] ELSE alive
        IN /\ cnt' = [cnt EXCEPT ![c] = w[k].rem]
           /\ IF MustPop(x, Ev(k)) THEN alive' = al /\ StartPop(k, x) /\ UNCHANGED abort ELSE Exec(k, x, al, abort)
Next == \E k \in 1..NW : w[k].at # "done" /\ Worker(k) /\ order' = Append(order, k) /\ UNCHANGED t
Done == \A k \in 1..NW : w[k].at = "done"
Verdict == IF \E k \in 1..NW : w[k].res = "err" THEN "invalid" ELSE "ok"
Safe == ok = ""
SameVerdict == Done => Verdict = Tr.verdict
Emit == IF Done THEN PrintT("CASE\torder\t" \o ToString(t) \o "\t" \o ToString(order)) ELSE TRUE
=============================================================================
