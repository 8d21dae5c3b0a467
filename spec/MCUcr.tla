-------------------------------- MODULE MCUcr --------------------------------
(* The bound from the ends, with its levels limited to what the length gives, *)
(* never exceeds the distance, for all pairs of N values of Dom.              *)
EXTENDS Ucr
CONSTANTS Dom, N, Guard
VARIABLES a, b
Seqs == UNION {[1..n -> Dom] : n \in 2..N}
Init == a \in Seqs /\ b = <<>>
Next == b = <<>> /\ b' \in [1..Len(a) -> Dom] /\ UNCHANGED a
Admissible == b # <<>> => KimHier(a, b, Guard) <= D(a, b, Len(a) - 1)
\* the parts of the bound by envelopes never exceed what the points cost
Parts == b # <<>> => \A r \in 0..(Len(a) - 1) :
  SumSeq([i \in 1..Len(a) |-> Near(a[i], b, i, r)]) <= D(a, b, r)
=============================================================================
