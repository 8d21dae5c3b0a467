------------------------------ MODULE PoolTrace ------------------------------
(* Recorded runs of the real thread pool against Pool.                        *)
EXTENDS Pool, Sequences, Json, IOUtils, TLC
VARIABLES tr, l, bad
vars == <<pvars, tr, l, bad>>

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Focus == IOEnv.FOCUS

Step(e) ==
  \/ e.op = "pool" /\ UNCHANGED pvars
  \/ e.op = "give" /\ Give(e.i)
  \/ e.op = "start" /\ Start(e.w, e.i)
  \/ e.op = "end" /\ End(e.w, e.i, e.val)
  \/ e.op = "got" /\ Fetch(e.i, e.val)
  \/ e.op = "gone" /\ Gone
  \* "stuck", no thread can continue, is no step of the pool

Init == PInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
           \/ Step(e) /\ bad' = {}
           \/ ~(ENABLED Step(e)) /\ bad' = {"C10"} /\ UNCHANGED pvars
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
