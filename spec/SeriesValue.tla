------------------------------ MODULE SeriesValue ------------------------------
(* Value semantics of TimeSeries.  A register either owns its values or views  *)
(* places s..e-1 of a buffer; x, s, e are its index, start and end.            *)
EXTENDS Dist

EmptyRegs == [regs |-> [i \in {} |-> 0], bufs |-> [i \in {} |-> 0]]
PutR(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]

Value(s, r) == IF r.own THEN r.v ELSE SubSeq(s.bufs[r.buf], r.s + 1, r.e)
Length(r) == r.e - r.s
Store(s, k, r) == [s EXCEPT !.regs = PutR(@, k, r)]
\* writes values through register k: into the register or the buffer behind it
Write(s, k, v) ==
  LET r == s.regs[k] IN
  IF r.own THEN [s EXCEPT !.regs[k].v = v]
  ELSE [s EXCEPT !.bufs[r.buf] = [i \in 1..Len(@) |-> IF i > r.s /\ i <= r.e THEN v[i - r.s] ELSE @[i]]]

Allowed(s, e) ==
  CASE e.op \in {"get", "set"} -> e.i >= 0 /\ e.i < Length(s.regs[e.a])
    [] e.op = "add" -> Length(s.regs[e.a]) = Length(s.regs[e.b])
    [] OTHER -> TRUE

\* point-wise addition; when both views overlap, values are read as they are written
AddAll(s, a, b) ==
  LET n == Length(s.regs[a]) IN
  FoldLeft(LAMBDA t, i :
     LET va == Value(t, t.regs[a]) vb == Value(t, t.regs[b]) IN
     Write(t, a, [va EXCEPT ![i] = va[i] + vb[i]]), s, Iota(n))

Effect(s, e) ==
  CASE e.op = "buf" -> [s EXCEPT !.bufs = PutR(@, e.a, e.vals)]
    [] e.op = "ref" -> Store(s, e.a, [own |-> FALSE, buf |-> e.b, x |-> e.x, s |-> e.s, e |-> e.e])
    [] e.op = "refl" -> Store(s, e.a, [own |-> FALSE, buf |-> e.b, x |-> 0, s |-> 0, e |-> e.n])
    [] e.op = "own" -> Store(s, e.a, [own |-> TRUE, v |-> [i \in 1..e.n |-> 0], x |-> 0, s |-> 0, e |-> e.n])
    [] e.op \in {"copy", "asg", "mov"} -> Store(s, e.a, s.regs[e.b])
    [] e.op = "set" -> Write(s, e.a, [Value(s, s.regs[e.a]) EXCEPT ![e.i + 1] = e.val])
    [] e.op = "add" -> AddAll(s, e.a, e.b)
    [] OTHER -> s
=============================================================================
