-------------------------------- MODULE CliTrace --------------------------------
(* Recorded sessions of the command line program: every typed line is carried  *)
(* out like the library operation it means, its result is shown, and lines     *)
(* that mean nothing show an error and have no effect.                         *)
EXTENDS GenexTrace, Cli
VARIABLES mode,     \* "ready", "asking" (to end), "over"
          timer     \* "on", "off"
cvars == <<tr, l, st, bad, mode, timer>>

\* e.shown has the fields that the operation returns in a library session
Observed(e, n) == IF n \in DOMAIN e.all THEN e.all[n]
                  ELSE [cnt |-> 0, max |-> 0, norm |-> FALSE, rows |-> <<>>, names |-> <<>>, bits |-> 0, grp |-> NoGroups]
Digest(e, p) == IF p \in DOMAIN e.files THEN e.files[p] ELSE -1
\* normalizing shows no minimum and maximum
Extremes(n) == IF Has(st, n) /\ Values(st.ds[n].rows) # {}
               THEN [mn |-> MinOf(Values(st.ds[n].rows)), mx |-> MaxOf(Values(st.ds[n].rows))]
               ELSE [mn |-> 0, mx |-> 0]
Carried(c, e) ==
  LET x == c @@ e.shown @@ [ok |-> ~e.err] IN
  CASE c.op \in {"load", "group", "loadg"} -> Apply(x @@ [post |-> Observed(e, c.n)])
    [] c.op = "norm" -> Apply(x @@ [post |-> Observed(e, c.n)] @@ Extremes(c.n))
    [] c.op \in {"saved", "saveg"} -> Apply(x @@ [dig |-> Digest(e, c.p)])
    [] c.op = "sizes" -> Apply(x @@ [dig |-> Digest(e, c.p),
                                     szs |-> IF c.p \in DOMAIN e.szs THEN e.szs[c.p] ELSE <<-1>>])
    [] OTHER -> Apply(x)

ListOK(e) ==
  /\ DOMAIN e.shown.ds = DOMAIN st.ds /\ e.shown.n = Cardinality(DOMAIN st.ds)
  /\ \A n \in DOMAIN st.ds :
       LET d == st.ds[n] o == e.shown.ds[n] IN
       /\ o.norm = d.norm /\ o.on = d.grp.on
       /\ d.grp.on => o.dist = d.grp.dist /\ o.thr8 = d.grp.thr8

Judge(o, e, wrong) ==
  LET after == ObsAgainst(o.st, e) IN
  Out(after.st, When("C19" \in o.bad \/ "C19" \in after.bad \/ wrong, {"C19"}))

\* while the timer is on, these commands tell how long they took
Timed == {"group", "best", "kbest", "brute"}
TimerAfter(e) ==
  LET c == IF e.op = "line" THEN Command(e.toks) ELSE [op |-> "nothing"] IN
  IF c.op = "timer" /\ c.to # "same" THEN c.to ELSE timer

\* needs: what has to be shown is there
Line(e) ==
  LET c == Command(e.toks) IN
  CASE c.op = "nothing" -> Judge(Out(st, {}), e, e.err \/ e.ended)
    [] c.op = "help" -> Judge(Out(st, {}), e, e.err \/ e.ended \/ e.silent)
    [] c.op = "commands" -> Judge(Out(st, {}), e, e.err \/ e.ended \/ ~(Known \subseteq {e.shown.cmds[i] : i \in 1..Len(e.shown.cmds)}))
    [] c.op = "timer" -> Judge(Out(st, {}), e, e.err \/ e.ended \/ ~e.complete \/ e.shown.timer # TimerAfter(e))
    [] c.op = "quit" -> Judge(Out(st, {}), e, ~e.ended \/ e.rc # 0)
    [] c.op = "usage" -> Judge(Out(st, {}), e, ~e.err \/ e.ended)
    [] c.op = "list" -> Judge(Out(st, {}), e, e.err \/ e.ended \/ ~e.complete \/ ~ListOK(e))
    [] OTHER -> IF ~e.err /\ ~e.complete THEN Out(st, {"C19"})
                ELSE Judge(Carried(c, e), e, e.ended \/ (~e.err /\ c.op \in Timed /\ e.timed # (timer = "on")))

\* the question after the end of input
Answer(e) == IF e.raw \in {"y", ""} THEN "over" ELSE IF e.raw = "n" THEN "ready" ELSE "asking"

Step(e) ==
  CASE e.op = "file" -> [o |-> DoFile(e), mode |-> mode]
    [] e.op \in {"line", "eof"} /\ mode = "over" -> [o |-> Out(st, When(~e.over, {"C19"})), mode |-> mode]
    [] e.op \in {"line", "eof"} /\ mode # "over" /\ e.over -> [o |-> Out(st, {"C19"}), mode |-> "over"]
    [] e.op = "line" /\ mode = "ready" ->
         [o |-> Line(e), mode |-> IF Command(e.toks).op = "quit" THEN "over" ELSE "ready"]
    [] e.op = "line" /\ mode = "asking" ->
         [o |-> Judge(Out(st, {}), e, e.ended # (Answer(e) = "over") \/ e.rc # 0), mode |-> Answer(e)]
    [] e.op = "eof" /\ mode = "ready" -> [o |-> Judge(Out(st, {}), e, e.ended), mode |-> "asking"]
    [] e.op = "eof" /\ mode = "asking" -> [o |-> Judge(Out(st, {}), e, ~e.ended \/ e.rc # 0), mode |-> "over"]

CInit == Init /\ mode = "ready" /\ timer = "on"
CNext == /\ l <= Len(Traces[tr].ev)
         /\ LET s == Step(Traces[tr].ev[l]) IN st' = s.o.st /\ bad' = s.o.bad /\ mode' = s.mode
         /\ timer' = IF mode = "ready" THEN TimerAfter(Traces[tr].ev[l]) ELSE timer
         /\ l' = l + 1
         /\ UNCHANGED tr
=============================================================================
