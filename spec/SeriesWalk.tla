------------------------------ MODULE SeriesWalk -------------------------------
(* All programs over two series and one buffer of two values, as SeriesValue   *)
(* means them: TLC checks what may change what, and prints every step; C20     *)
(* follows walks through these steps with the real class.                      *)
(* env tells whether an envelope is kept for a series ("kept"), and whether    *)
(* its values changed since in a way that the series cannot notice ("stale").  *)
EXTENDS SeriesValue, Json
CONSTANTS Regs, Dom
VARIABLES st, env

Init == st = [EmptyRegs EXCEPT !.bufs = PutR(@, 0, <<0, 0>>)] /\ env = [k \in Regs |-> "none"]

Has(s, k) == k \in DOMAIN s.regs
Vals(s, k) == Value(s, s.regs[k])
Sees(s, k, o) == s.regs[k].own = FALSE /\ \E i \in 1..2 : i > s.regs[k].s /\ i <= s.regs[k].e /\
                   (o = -1 \/ (~s.regs[o].own /\ i > s.regs[o].s /\ i <= s.regs[o].e))
Replaces(op) == op.op \in {"ref", "refl", "own", "copy"}

\* a series changes only when it is the target, or through the buffer it shares with the target
Separate(op, s, t) ==
  /\ \A k \in DOMAIN s.regs :
       (k # op.a \/ op.op = "buf") =>
         /\ t.regs[k] = s.regs[k]
         /\ Vals(t, k) # Vals(s, k) => CASE op.op = "buf" -> Sees(s, k, -1)
                                         [] op.op \in {"set", "add"} -> Sees(s, k, op.a)
                                         [] OTHER -> FALSE
  /\ op.op \notin {"buf", "set", "add"} => t.bufs = s.bufs
  /\ op.op \in {"copy", "asg", "mov"} => Vals(t, op.a) = Vals(s, op.b)
  /\ op.op \in {"set", "add"} /\ s.regs[op.a].own => t.bufs = s.bufs

EnvAfter(op, must, s, t) == [k \in Regs |->
  IF ~Has(t, k) THEN "none"
  ELSE IF op.op # "buf" /\ op.a = k /\ must /\ (Replaces(op) \/ (op.op \in {"asg", "mov"} /\ op.b # k) \/ op.op = "add") THEN "none"
  ELSE IF op.op = "env" /\ op.a = k THEN "kept"
  ELSE IF env[k] = "kept" /\ Vals(t, k) # Vals(s, k) THEN "stale"
  ELSE env[k]]

InDom(s) == \A i \in 1..2 : s.bufs[0][i] \in Dom
Within(s) == InDom(s) /\ \A k \in DOMAIN s.regs : \A i \in 1..Len(Vals(s, k)) : Vals(s, k)[i] \in Dom

Do(op) ==
  LET must == Allowed(st, op)
      t == IF must THEN Effect(st, op) ELSE st
      v == EnvAfter(op, must, st, t)
  IN /\ Within(t)
     /\ st' = t /\ env' = v
     /\ Assert(Separate(op, st, t), <<"not separate", op, st, t>>)
     /\ PrintT("STEP " \o ToJson([from |-> <<st, env>>, op |-> op, to |-> <<t, v>>]))

Next ==
  \/ \E v \in [1..2 -> Dom] : Do([op |-> "buf", a |-> 0, vals |-> v])
  \/ \E k \in Regs :
       \/ \E p \in {<<0, 1>>, <<1, 2>>, <<0, 2>>} : Do([op |-> "ref", a |-> k, b |-> 0, x |-> 1, s |-> p[1], e |-> p[2]])
       \/ \E n \in 1..2 : Do([op |-> "refl", a |-> k, b |-> 0, n |-> n]) \/ Do([op |-> "own", a |-> k, n |-> n])
       \/ Has(st, k) /\
          (\/ \E i \in 0..1 : \E v \in Dom : Do([op |-> "set", a |-> k, i |-> i, val |-> v])
           \/ Do([op |-> "set", a |-> k, i |-> -1, val |-> 1])
           \/ \E w \in 0..1 : env[k] # "stale" /\ Do([op |-> "env", a |-> k, w |-> w]))
       \/ \E j \in DOMAIN st.regs :
            \/ Do([op |-> "copy", a |-> k, b |-> j])
            \/ Has(st, k) /\ \E o \in {"asg", "mov", "add"} : Do([op |-> o, a |-> k, b |-> j])
Sane == Within(st) /\ \A k \in DOMAIN st.regs : Len(Vals(st, k)) = Length(st.regs[k])
=============================================================================
