------------------------------ MODULE SeriesTrace ------------------------------
(* TimeSeries values: registers that hold values of their own or view a       *)
(* buffer, as recorded sessions against the specification (property C20).     *)
EXTENDS SeriesValue, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>

\* observed registers are those of the specification
Shows(s, obs) ==
  /\ {obs[i].r : i \in 1..Len(obs)} = DOMAIN s.regs
  /\ \A i \in 1..Len(obs) :
       LET r == s.regs[obs[i].r] IN
       /\ obs[i].v = Value(s, r) /\ obs[i].x = r.x /\ obs[i].s = r.s /\ obs[i].e = r.e
       /\ obs[i].n = r.e - r.s

\* the order of matches: by distance, then by place
Before(u, v) == \E i \in 1..4 : u[i] < v[i] /\ \A j \in 1..(i - 1) : u[j] = v[j]

Answer(s, e) ==
  CASE e.op = "get" -> e.fine => e.val = Value(s, s.regs[e.a])[e.i + 1]
    [] e.op = "eq" -> (e.val = 1) = (Value(s, s.regs[e.a]) = Value(s, s.regs[e.b]))
    [] e.op = "avg" -> LET v == Value(s, s.regs[e.a]) IN
                       Len(v) > 0 => e.val = SumSeq(v)
    [] e.op = "env" -> LET v == Value(s, s.regs[e.a]) IN
                       e.lo = EnvLo(v, Min2(e.w, Len(v) - 1)) /\ e.hi = EnvHi(v, Min2(e.w, Len(v) - 1))
    [] e.op = "print" -> LET r == s.regs[e.a] IN
                         e.vals = Value(s, r) /\ e.close /\ e.id = ToString(r.x) \o " [" \o ToString(r.s) \o ", " \o ToString(r.e) \o "]"
    [] e.op = "cand" -> LET p == s.regs[e.a]
                            q == s.regs[e.b]
                        IN /\ (e.eq = 1) = (e.d = e.f /\ Value(s, p) = Value(s, q))
                           /\ (e.lt = 1) = Before(<<e.d, p.x, p.s, p.e - p.s>>, <<e.f, q.x, q.s, q.e - q.s>>)
                           /\ (e.gt = 1) = Before(<<e.f, q.x, q.s, q.e - q.s>>, <<e.d, p.x, p.s, p.e - p.s>>)
    [] OTHER -> TRUE

Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = EmptyRegs /\ bad = FALSE
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l]
         must == Allowed(st, e)
         s2 == IF must THEN Effect(st, e) ELSE st
     IN /\ st' = s2
        /\ bad' = ~(e.fine = must /\ (must => Answer(st, e)) /\ Shows(s2, e.regs))
  /\ l' = l + 1
  /\ UNCHANGED tr
Conforms == ~bad
=============================================================================
