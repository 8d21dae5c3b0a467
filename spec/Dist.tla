-------------------------------- MODULE Dist --------------------------------
(* Distances between sequences of integers.                                  *)
(*                                                                           *)
(* Values are integers in units of 1/G, so every distance of the real code   *)
(* is a known function of an exact integer total:                            *)
(*   euclidean     d = sqrt(T / len) / G        T = sum of squares           *)
(*   manhattan     d = T / len / G              T = sum of absolutes         *)
(*   chebyshev     d = T / G                    T = maximum                  *)
(* and for the warped ones, with m the longer length,                        *)
(*   euclidean_dtw d = sqrt(T) / (2 m G)                                     *)
(*   manhattan_dtw d = T / (2 m G)                                           *)
(*   chebyshev_dtw d = T / G                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Iota(n) == [i \in 1..n |-> i]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Inf == 2000000000
Additive == {"euclidean", "manhattan"}
Ordered == Additive \cup {"chebyshev"}     \* distances the search is defined for
AllDist == Ordered \cup {"cosine", "sorensen"}

\* width of the warping band for a pair whose longer length is len
Band(len, ratio) == Min2((len * ratio[1]) \div ratio[2], len - 1)

Cell(dn, x, y) == IF dn = "euclidean" THEN (x - y) * (x - y) ELSE Abs(x - y)
Comb(dn, acc, c) == IF dn = "chebyshev" THEN Max2(acc, c) ELSE acc + c

\* ---- plain distance -------------------------------------------------------
PairT(dn, x, y) == FoldLeft(LAMBDA a, i : Comb(dn, a, Cell(dn, x[i], y[i])), 0, Iota(Len(x)))

\* cosine and sorensen are quotients: <<numerator, denominator>> of the square / the value
Dot(x, y) == FoldLeft(LAMBDA a, i : a + x[i] * y[i], 0, Iota(Len(x)))
SorNum(x, y) == FoldLeft(LAMBDA a, i : a + Abs(x[i] - y[i]), 0, Iota(Len(x)))
SorDen(x, y) == FoldLeft(LAMBDA a, i : a + Abs(x[i] + y[i]), 0, Iota(Len(x)))

\* ---- warped distance: dynamic programming over the band ------------------
DTWRow(dn, a, b, r, prev, i) ==
  FoldLeft(LAMBDA acc, j :
    IF j < i - r \/ j > i + r THEN Append(acc, Inf)
    ELSE LET c == Cell(dn, a[i], b[j])
             up == IF i = 1 THEN Inf ELSE prev[j]
             left == IF j = 1 THEN Inf ELSE acc[j - 1]
             dg == IF i = 1 \/ j = 1 THEN Inf ELSE prev[j - 1]
             mn == Min2(up, Min2(left, dg))
         IN Append(acc, IF i = 1 /\ j = 1 THEN c
                        ELSE IF mn = Inf THEN Inf ELSE Comb(dn, mn, c)),
    <<>>, Iota(Len(b)))

DTW(dn, a, b, r) ==
  LET last == FoldLeft(LAMBDA prev, i : DTWRow(dn, a, b, r, prev, i), <<>>, Iota(Len(a)))
  IN last[Len(b)]

\* total of the warped distance under a band ratio
WarpT(dn, a, b, ratio) ==
  LET m == Max2(Len(a), Len(b)) IN
  IF Abs(Len(a) - Len(b)) > Band(m, ratio) THEN Inf ELSE DTW(dn, a, b, Band(m, ratio))

\* scale of a warped total: distances are compared as T / scale
Scale(dn, la, lb) ==
  LET m == Max2(la, lb) IN
  CASE dn = "euclidean" -> m * m [] dn = "manhattan" -> m [] OTHER -> 1

\* a warped distance as a comparable pair
Warp(dn, a, b, ratio) == <<WarpT(dn, a, b, ratio), Scale(dn, Len(a), Len(b))>>
LT(x, y) == IF x[1] = Inf THEN FALSE ELSE IF y[1] = Inf THEN TRUE ELSE x[1] * y[2] < y[1] * x[2]
EQ(x, y) == IF x[1] = Inf \/ y[1] = Inf THEN x[1] = y[1] ELSE x[1] * y[2] = y[1] * x[2]
LE(x, y) == ~LT(y, x)

\* ---- declarative definition: minimum over all warping paths ---------------
InBand(i, j, r) == Abs(i - j) <= r
RECURSIVE Paths(_, _, _)
Paths(i, j, r) ==                 \* all warping paths from (1,1) to (i,j) inside the band
  IF ~InBand(i, j, r) THEN {}
  ELSE IF i = 1 /\ j = 1 THEN {<< <<1, 1>> >>}
  ELSE LET P == (IF i > 1 THEN Paths(i - 1, j, r) ELSE {})
                \cup (IF j > 1 THEN Paths(i, j - 1, r) ELSE {})
                \cup (IF i > 1 /\ j > 1 THEN Paths(i - 1, j - 1, r) ELSE {})
       IN {Append(p, <<i, j>>) : p \in P}
PathCost(dn, a, b, p) == FoldLeft(LAMBDA acc, c : Comb(dn, acc, Cell(dn, a[c[1]], b[c[2]])), 0, p)
DTWDecl(dn, a, b, r) ==
  LET P == Paths(Len(a), Len(b), r) IN
  IF P = {} THEN Inf ELSE MinOf({PathCost(dn, a, b, p) : p \in P})

\* a matching (sequence of 1-based pairs) is an optimal path inside the band
IsPath(p, la, lb, r) ==
  /\ Len(p) > 0 /\ p[1] = <<1, 1>> /\ p[Len(p)] = <<la, lb>>
  /\ \A k \in 1..(Len(p) - 1) :
       <<p[k + 1][1] - p[k][1], p[k + 1][2] - p[k][2]>> \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}
  /\ \A k \in 1..Len(p) : InBand(p[k][1], p[k][2], r)

\* ---- envelope and lower bounds ---------------------------------------------
EnvLo(a, r) == [i \in 1..Len(a) |-> MinOf({a[j] : j \in Max2(1, i - r)..Min2(Len(a), i + r)})]
EnvHi(a, r) == [i \in 1..Len(a) |-> MaxOf({a[j] : j \in Max2(1, i - r)..Min2(Len(a), i + r)})]
\* totals (same scale as the warped euclidean total)
KeoghT(a, b, r) ==
  LET lo == TLCEval(EnvLo(a, r)) hi == TLCEval(EnvHi(a, r)) IN
  FoldLeft(LAMBDA acc, i : IF b[i] > hi[i] THEN acc + (b[i] - hi[i]) * (b[i] - hi[i])
                           ELSE IF b[i] < lo[i] THEN acc + (lo[i] - b[i]) * (lo[i] - b[i])
                           ELSE acc, 0, Iota(Min2(Len(a), Len(b))))
KimT(a, b) ==
  IF Len(a) = 1 \/ Len(b) = 1 THEN Cell("euclidean", a[1], b[1])
  ELSE Cell("euclidean", a[1], b[1]) + Cell("euclidean", a[Len(a)], b[Len(b)])
=============================================================================
