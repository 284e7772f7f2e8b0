-------------------------------- MODULE CliM --------------------------------
(* The command-line program as a transition system. A run is a command, a set of options, a way to
   give the files and a document made of independent features; it goes through the stages
   usage -> open -> parse -> check -> output, and the first stage that fails decides the exit status.
   The result of a run is what a user sees: exit status, verdict, and what was written where. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mode, MaxF, MaxO
VARIABLE st

F(n, pre, txt) == [n |-> n, pre |-> pre, txt |-> txt]
Feats == <<
  F("hole", "", "(step s1 (cl q) :rule hole)"),
  F("unknown", "", "(step s2 (cl q) :rule strange)"),
  F("wrong", "", "(step s3 (cl q) :rule refl)"),
  F("turned", "", "(assume s4 (= b a))"),
  F("noargs", "", "(step s5a (cl p q) :rule weakening :premises (h1))(step s5 (cl q) :rule resolution :premises (s5a h2))"),
  F("mixed", "", "(step s6 (cl (= (+ i 1.0) (+ i 1.0))) :rule refl)"),
  F("unary", "", "(step s7 (cl (= (and p) (and p))) :rule refl)"),
  F("holeargs", "", "(step s8 (cl q) :rule hole :args (zz))"),
  F("defrefl", "(define-fun d () Bool (and p q))", "(step s9 (cl (= d (and p q))) :rule refl)"),
  F("defassume", "(define-fun e () Bool (or p q))", "(assume s10 (= e (or p q)))"),
  F("let", "", "(step s11 (cl (= (let ((x p)) (and x q)) (and p q))) :rule refl)"),
  F("rare", "", "(step s12 (cl (= (or p p) p)) :rule rare_rewrite :args (\"rr\" p))"),
  F("cut", "", "(step s13 (cl q) :rule"),
  F("noassume", "", "(assume s14 q)"),
  F("lia", "", "(step s15 (cl (not (< i 0)) (< i 1)) :rule lia_generic)(step s15b (cl (= (+ i (+ i i)) (+ (+ i i) i))) :rule lia_generic)"),
  F("liasub", "", "(anchor :step s16)(assume s16.a q)(step s16.t (cl (<= i i)) :rule lia_generic)(step s16 (cl (not q) (<= i i)) :rule subproof :discharge (s16.a))"),
  F("shared", "", "(step s17 (cl (= (and (or p q) (or p q)) (and (or p q) (or p q)))) :rule refl)"),
  F("badtrans", "", "(step s18 (cl (= a b) q) :rule trans :premises (h1))"),
  F("badreorder", "", "(step s19 (cl q) :rule reordering :premises (h1))(step s19b (cl q p) :rule weakening :premises (s19))"),
  F("noend", "", "")
>>
Fnames == {Feats[m].n : m \in 1..Len(Feats)}
Opts == <<
  [n |-> "ignore", a |-> "-i"], [n |-> "skip", a |-> "--skip-unknown-rules"],
  [n |-> "allowS", a |-> "--allowed-rules strange"], [n |-> "allowR", a |-> "--allowed-rules refl trans rare_rewrite reordering"],
  [n |-> "elaborated", a |-> "--check-granularity elaborated"], [n |-> "mixed", a |-> "--allow-int-real-subtyping"],
  [n |-> "strict", a |-> "--strict-parsing"], [n |-> "holeargs", a |-> "--parse-hole-args"],
  [n |-> "defs", a |-> "--apply-function-defs"], [n |-> "lets", a |-> "--expand-let-bindings"],
  [n |-> "rare", a |-> "--rare-file r.rare"], [n |-> "buffer", a |-> "--buffer-entire-file"],
  [n |-> "threads", a |-> "-u 3"], [n |-> "nothreads", a |-> "-u 0"], [n |-> "badthreads", a |-> "-u two"], [n |-> "stats", a |-> "--stats"], [n |-> "unshared", a |-> "-v"],
  [n |-> "quiet", a |-> "--log off"], [n |-> "notanoption", a |-> "--no-such-option"],
  [n |-> "rotate", a |-> "--uncrowd-rotate"], [n |-> "local", a |-> "--pipeline local"], [n |-> "pipe", a |-> "--pipeline polyeq uncrowd polyeq reordering"],
  [n |-> "solverargs", a |-> "--lia-solver-args=x"]
>>
Onames == {Opts[m].n : m \in 1..Len(Opts)}
Parsing == {"mixed", "strict", "holeargs", "defs", "lets", "buffer", "unshared", "quiet", "notanoption"}
Checking == {"ignore", "skip", "allowS", "allowR", "elaborated"}
Elabs == {"rotate", "local", "pipe", "solverargs"}
Allowed(cmd) == CASE cmd = "check" -> Parsing \cup Checking \cup {"rare", "threads", "nothreads", "badthreads", "stats"}
                  [] cmd = "elaborate" -> Parsing \cup Checking \cup Elabs \cup {"rare", "stats"}
                  [] cmd = "slice" -> Parsing \cup {"rare", "ignore"}
                  [] OTHER -> Parsing \cup {"rare"}
Commands == {"check", "elaborate", "parse", "slice", "generate-lia-problems"}
Inputs == {"both", "infer", "infer far", "infer smt_in", "no inference", "proof from stdin", "problem from stdin", "both from stdin", "stdin alone",
           "no proof file", "no problem file", "no rare file", "bad rare file", "proof is a directory", "not text", "swapped", "empty proof", "spaces in name"}

\* what each feature does to the two stages that look at it
ParseFails(f, O) == f = "cut" \/ (f = "mixed" /\ "mixed" \notin O) \/ (f = "unary" /\ "strict" \in O) \/ (f = "holeargs" /\ "holeargs" \in O)
Rule(f) == CASE f \in {"wrong", "mixed", "unary", "defrefl", "let", "shared"} -> "refl"
             [] f = "rare" -> "rare_rewrite"
             [] f = "unknown" -> "strange"
             [] f = "badtrans" -> "trans"
             [] f = "badreorder" -> "reordering"
             [] OTHER -> "other"
Excused(f, O) == \/ "allowR" \in O /\ Rule(f) \in {"refl", "rare_rewrite", "trans", "reordering"}
                 \/ Rule(f) = "strange" /\ O \cap {"allowS", "ignore", "skip"} # {}
CheckFails(f, O) == ~Excused(f, O) /\
  (\/ f \in {"unknown", "wrong", "badtrans", "badreorder", "noend", "noassume"}
   \/ f \in {"turned", "noargs"} /\ "elaborated" \in O
   \/ f = "defrefl" /\ "defs" \notin O
   \/ f = "defassume" /\ "defs" \in O
   \/ f = "let" /\ "lets" \notin O
   \/ f = "rare" /\ "rare" \notin O)
Holey(f, O) == Excused(f, O) \/ f \in {"hole", "holeargs", "lia", "liasub"}

Verdict(D, O) == IF \E f \in D : CheckFails(f, O) THEN "invalid" ELSE IF \E f \in D : Holey(f, O) THEN "holey" ELSE "valid"
UsageFails(s) == \/ {"ignore", "skip"} \subseteq s.o \/ {"nothreads", "badthreads", "notanoption", "solverargs"} \cap s.o # {} \/ {"threads", "nothreads"} \subseteq s.o
OpenFails(s) == s.i \in {"no inference", "both from stdin", "stdin alone", "no proof file", "no problem file", "no rare file", "proof is a directory"}
\* files that are read but are not what they should be
ReadFails(s) == s.i \in {"bad rare file", "not text", "swapped"}
Docs(s) == IF s.i = "empty proof" THEN {"noend"} ELSE s.d

Start == [ph |-> "command", cmd |-> "", o |-> {}, i |-> "both", d |-> {}, id |-> "", exit |-> -1, verdict |-> "", prints |-> FALSE, jobs |-> <<>>]
Init == st = Start
Choose == st.ph = "command" /\ Mode # "bench" /\ \E c \in Commands : st' = [st EXCEPT !.ph = "document", !.cmd = c]
AddF == st.ph = "document" /\ Cardinality(st.d) < MaxF /\ \E f \in Fnames \ st.d : st' = [st EXCEPT !.d = @ \cup {f}]
DocDone == st.ph = "document" /\ ~({"lia", "liasub"} \subseteq st.d) /\ st' = [st EXCEPT !.ph = "options"]
AddO == st.ph = "options" /\ Cardinality(st.o) < MaxO /\ \E f \in Allowed(st.cmd) \ st.o : st' = [st EXCEPT !.o = @ \cup {f}]
\* the option sets that are worth it: at least one option concerns a feature of the document, or there are few
OptDone == st.ph = "options" /\ Cardinality({"local", "pipe"} \cap st.o) < 2 /\ Cardinality({"threads", "nothreads", "badthreads"} \cap st.o) < 2
           /\ st' = [st EXCEPT !.ph = "input"]
Input == st.ph = "input" /\ \E x \in (IF Mode = "inputs" THEN Inputs ELSE {"both"}) :
           (x \in {"no rare file", "bad rare file"} => "rare" \in st.o)
           /\ st' = [st EXCEPT !.ph = IF st.cmd = "slice" THEN "id" ELSE "usage", !.i = x]
Id == st.ph = "id" /\ \E x \in {"fin", "h1", "nope"} : st' = [st EXCEPT !.ph = "usage", !.id = x]

Stop(code, v, pr) == st' = [st EXCEPT !.ph = "done", !.exit = code, !.verdict = v, !.prints = pr]
Fail == Stop(1, IF st.cmd = "check" THEN "invalid" ELSE "", FALSE)
Usage == st.ph = "usage" /\ (IF UsageFails(st) THEN Stop(2, "", FALSE) ELSE st' = [st EXCEPT !.ph = "open"])
Open == st.ph = "open" /\ (IF OpenFails(st) THEN Fail ELSE st' = [st EXCEPT !.ph = "parse"])
Parse == st.ph = "parse" /\ (IF ReadFails(st) \/ \E f \in Docs(st) : ParseFails(f, st.o) THEN Fail ELSE st' = [st EXCEPT !.ph = "check"])
Check == st.ph = "check" /\
  LET v == Verdict(Docs(st), st.o) IN
  CASE st.cmd = "check" -> Stop(IF v = "invalid" THEN 1 ELSE 0, v, FALSE)
    [] st.cmd = "elaborate" -> IF v = "invalid" THEN Fail ELSE Stop(0, v, TRUE)
    [] st.cmd = "slice" -> IF st.id \in {"nope", "h1"} \/ (st.id = "fin" /\ "noend" \in Docs(st)) THEN Fail ELSE Stop(0, "", TRUE)
    [] OTHER -> Stop(0, "", st.cmd = "parse")

\* benchmarks: a list of documents, each checked a number of times by a number of workers
JobDocs == {{}, {"hole"}, {"wrong"}, {"cut"}, {"noend"}, {"unknown"}, {"let"}, {"badreorder"}, {"shared", "turned"}, {"lia"}}
JobStart == st.ph = "command" /\ Mode = "bench" /\ st' = [st EXCEPT !.ph = "jobs", !.cmd = "bench"]
AddJob == st.ph = "jobs" /\ Len(st.jobs) < MaxF /\ \E d \in JobDocs : st' = [st EXCEPT !.jobs = Append(@, d)]
JobOpts == {"ignore", "allowR", "lets", "csv", "elaborate", "j3", "n2", "dir", "sorted", "n0", "j0", "elaborated", "missing"}
JobO == st.ph = "jobs" /\ \E O \in {X \in SUBSET JobOpts : Cardinality(X) <= MaxO} :
          /\ ~({"n0", "n2"} \subseteq O) /\ ~({"j0", "j3"} \subseteq O) /\ ~({"n0", "csv"} \subseteq O)
          /\ st' = [st EXCEPT !.ph = "run", !.o = O]
Runs == IF "n2" \in st.o THEN 2 ELSE IF "n0" \in st.o THEN 0 ELSE 1
Ok(d) == ~\E f \in d : ParseFails(f, st.o)
JV(d) == IF ~Ok(d) THEN "invalid" ELSE Verdict(d, st.o)
Errors == Runs * Cardinality({m \in 1..Len(st.jobs) : JV(st.jobs[m]) = "invalid"})
Measured == Runs * Cardinality({m \in 1..Len(st.jobs) : Ok(st.jobs[m])})
JRun == st.ph = "run" /\
  IF "missing" \in st.o THEN Stop(1, "", FALSE)
  ELSE IF st.jobs = <<>> \/ Runs = 0 THEN Stop(0, "", FALSE)
  ELSE Stop(0, IF Errors > 0 THEN "invalid" ELSE IF \E m \in 1..Len(st.jobs) : JV(st.jobs[m]) = "holey" THEN "holey" ELSE "valid", FALSE)

Next == Choose \/ AddF \/ DocDone \/ AddO \/ OptDone \/ Input \/ Id \/ Usage \/ Open \/ Parse \/ Check \/ JobStart \/ AddJob \/ JobO \/ JRun

\* facts about every run
ExitRight == st.ph = "done" /\ st.cmd \in {"check", "elaborate"} =>
  /\ (st.exit = 0 <=> st.verdict \in {"valid", "holey"})
  /\ (st.verdict = "valid" => \A f \in Docs(st) : ~CheckFails(f, st.o) /\ ~ParseFails(f, st.o) /\ ~Holey(f, st.o))
  /\ (st.prints => st.exit = 0)
RECURSIVE JoinS(_, _)
JoinS(s, x) == IF s = <<>> THEN "" ELSE s[1] \o (IF Len(s) = 1 THEN "" ELSE x \o JoinS(Tail(s), x))
Pick(seq, S) == SelectSeq(seq, LAMBDA x : x.n \in S)
Pre(D) == JoinS([m \in 1..Len(Pick(Feats, D)) |-> Pick(Feats, D)[m].pre], "")
Txt(D) == JoinS([m \in 1..Len(Pick(Feats, D)) |-> Pick(Feats, D)[m].txt], "\\n") \o
          (IF "noend" \in D THEN "" ELSE "\\n(step fin (cl) :rule resolution :premises (h1 h2) :args (p true))")
Names(S, seq) == JoinS([m \in 1..Len(Pick(seq, S)) |-> Pick(seq, S)[m].n], " ")
Args(S) == JoinS([m \in 1..Len(Pick(Opts, S)) |-> Pick(Opts, S)[m].a], " ; ")
RECURSIVE SetS(_)
SetS(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o " " \o SetS(S \ {x})
Emit == IF st.ph # "done" THEN TRUE
        ELSE IF Mode = "bench" THEN
          PrintT("BENCH\t" \o SetS(st.o) \o "\t" \o ToString(st.exit) \o "\t" \o st.verdict \o "\t" \o ToString(Errors) \o "\t" \o ToString(Measured) \o "\t#" \o
                 JoinS([m \in 1..Len(st.jobs) |-> "\t" \o Names(st.jobs[m], Feats) \o "\t;" \o Pre(st.jobs[m]) \o "\t;" \o Txt(st.jobs[m])], ""))
        ELSE PrintT("CASE\t" \o st.cmd \o "\t" \o Names(st.d, Feats) \o "\t" \o Pre(st.d) \o "\t" \o Txt(st.d) \o "\t" \o Names(st.o, Opts) \o "\t" \o Args(st.o) \o "\t" \o
                    st.i \o "\t" \o st.id \o "\t" \o ToString(st.exit) \o "\t" \o st.verdict \o "\t" \o (IF st.prints THEN "1" ELSE "0"))
=============================================================================
