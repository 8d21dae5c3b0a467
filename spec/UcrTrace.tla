------------------------------- MODULE UcrTrace -------------------------------
(* Recorded calls of the bundled search against Ucr.                          *)
EXTENDS Ucr, Json, IOUtils
VARIABLES tr, l, bad
vars == <<tr, l, bad>>

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Focus == IOEnv.FOCUS

OK(e) ==
  CASE e.op = "dtw" -> DtwOK(e.a, e.b, e.r, e.cut, e.t)
    [] e.op = "kim" -> KimOK(e.a, e.b, e.t)
    [] e.op = "keogh" -> KeoghOK(e.a, e.b, e.r, e.cut, e.t, e.cb)
    [] e.op = "keogh2" -> KeoghOK(e.b, e.a, e.r, e.cut, e.t, e.cb)
    [] e.op = "search" -> e.fine /\ SearchOK(e.data, e.q, e.r, e.loc, e.dist, e.scanned)
    [] e.op = "missing" -> e.fine /\ e.loc = -1 /\ e.dist = -1      \* reported, and no answer given
    [] e.op = "long" -> e.fine /\ LongOK(e.win, e.q, e.puts, e.n, e.r, e.loc, e.dist, e.scanned)

\* the same search again and again: the memory held after each does not grow without end
Grows(s) == Len(s) >= 6 /\ \A i \in (Len(s) - 3)..Len(s) : s[i] > s[i - 1]
Bad(e) == IF e.op = "again" THEN (IF e.fine /\ ~Grows(e.heap) THEN {} ELSE {"C24"})
          ELSE IF OK(e) THEN {} ELSE {"C23"}

Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Traces[tr].ev)
        /\ bad' = Bad(Traces[tr].ev[l])
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
