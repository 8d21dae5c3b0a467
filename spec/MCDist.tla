-------------------------------- MODULE MCDist --------------------------------
(* The definitions of Dist against each other, for all pairs of sequences of  *)
(* at most N values of Dom and all band widths: the dynamic programming finds *)
(* the cheapest warping path, the bounds do not exceed it, the envelope       *)
(* contains everything the band lets a point meet.                            *)
EXTENDS Dist
CONSTANTS Dom, N

VARIABLES a, b, r
vars == <<a, b, r>>
Seqs == UNION {[1..n -> Dom] : n \in 1..N}

Init == a \in Seqs /\ b = <<>> /\ r = -1
Next == r = -1 /\ b' \in Seqs /\ r' \in 0..(N - 1) /\ UNCHANGED a
Fits == r >= 0 /\ Abs(Len(a) - Len(b)) <= r /\ r < Max2(Len(a), Len(b))

Programming == \A dn \in Ordered : Fits => DTW(dn, a, b, r) = DTWDecl(dn, a, b, r)
Symmetric == \A dn \in Ordered : Fits => DTW(dn, a, b, r) = DTW(dn, b, a, r)
Identical == \A dn \in Ordered : (Fits /\ a = b) => DTW(dn, a, b, r) = 0
\* a wider band never costs more; without warping it is the plain distance
Monotone == \A dn \in Ordered : (Fits /\ r + 1 < Max2(Len(a), Len(b))) => DTW(dn, a, b, r + 1) <= DTW(dn, a, b, r)
Plain == \A dn \in Ordered : (Fits /\ r = 0) => DTW(dn, a, b, 0) = PairT(dn, a, b)
Bounds == Fits => /\ KimT(a, b) <= DTW("euclidean", a, b, r)
                  /\ KeoghT(a, b, r) <= DTW("euclidean", a, b, r)
                  /\ KeoghT(b, a, r) <= DTW("euclidean", a, b, r)
\* what early stopping relies on: every prefix of one sequence matches some prefix of the other at no more than the total
Rows == \A dn \in Ordered : Fits =>
  LET T == DTW(dn, a, b, r) IN
  \A i \in 1..Len(a) : \E j \in 1..Len(b) :
    LET p == DTW(dn, SubSeq(a, 1, i), SubSeq(b, 1, j), r) IN p # Inf /\ p <= T
Envelope == r >= 0 => \A i \in 1..Len(a) : \A j \in 1..Len(a) :
              InBand(i, j, r) => EnvLo(a, r)[i] <= a[j] /\ a[j] <= EnvHi(a, r)[i]
\* every path that costs the total is accepted as a matching, and no cheaper one exists
Matching == (Fits /\ Len(a) <= 3 /\ Len(b) <= 3) =>
  \A dn \in Ordered : \A p \in Paths(Len(a), Len(b), r) :
    IsPath(p, Len(a), Len(b), r) /\ PathCost(dn, a, b, p) >= DTW(dn, a, b, r)
=============================================================================
