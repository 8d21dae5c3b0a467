-------------------------------- MODULE MCGroup --------------------------------
(* The scan of Grouping against the declarative properties of a grouping, and *)
(* the searches of Query against plain algorithms, for all tables of R rows   *)
(* of at most N values of Dom.                                                *)
EXTENDS Query
CONSTANTS Dom, R, N, Thr, Tenths

VARIABLES rows, thr8, dn, ratio, q
Chosen == q # <<>>
Seqs == UNION {[1..n -> Dom] : n \in 0..N}

Init == /\ rows \in [1..R -> Seqs] /\ thr8 \in Thr /\ dn \in Ordered
        /\ ratio = <<0, 10>> /\ q = <<>>
Next == /\ ~Chosen
        /\ ratio' \in {<<t, 10>> : t \in Tenths}
        /\ q' \in UNION {[1..n -> Dom] : n \in 1..(N + 1)}
        /\ UNCHANGED <<rows, thr8, dn>>

gs == AllGroups(rows, dn, thr8, 2, 1)
Groups == Chosen \/ LET g == TLCEval(gs) IN
          /\ Partition(rows, 2, g) /\ Represented(rows, g)
          /\ WithinRadius(rows, dn, thr8, g, 1) /\ ScansOK(rows, dn, thr8, 2, g, 1)
\* with threshold 0 a group holds equal sequences, and equal sequences are together
ZeroThreshold == (thr8 = 0 /\ ~Chosen) => LET g == TLCEval(gs) IN
  \A i, j \in 1..Len(g) : i # j => (g[i].l # g[j].l \/ g[i].r # g[j].r)

\* ---- plain searches
Hit(t, d) == [x |-> t[1], s |-> t[2], e |-> t[3], t |-> d[t][1]]
Brute(S, d, k) == LET o == SortedDists(S, d) IN [i \in 1..Min2(k, Len(o)) |-> Hit(o[i], d)]
DistsTo(S) == TLCEval([t \in S |-> Warp(dn, q, Sub(rows, t[1], t[2], t[3]), ratio)])
Exhaustive == Chosen => \A k \in 1..3 :
  LET S == Subs2(rows) d == DistsTo(S) res == Brute(S, d, k) IN
  /\ BruteOK(rows, dn, q, k, ratio, res)
  \* leaving the nearest one out is noticed
  /\ (Len(res) > 0 /\ LT(d[<<res[1].x, res[1].s, res[1].e>>], d[SortedDists(S, d)[Len(SortedDists(S, d))]])) =>
       ~BruteOK(rows, dn, q, k, ratio, Tail(res))

\* blocks are as many as needed, all but the last are full, and they hold the whole (values are multiples of 2)
BlocksOK(v, bs) ==
  LET b == Blocks(v, bs) n == Len(v) IN
  /\ Len(b) * bs >= n /\ (Len(b) - 1) * bs < n
  /\ SumSeq([i \in 1..Len(b) |-> b[i] * (IF i < Len(b) THEN bs ELSE n - (Len(b) - 1) * bs)]) = SumSeq(v)
Averaged == Chosen => LET S == Subs2(rows) d == DistsTo(S) IN
  /\ BlocksOK(q, 1) /\ BlocksOK(q, 2)
  \* blocks of one point: the exhaustive search
  /\ \A k \in 1..2 : PAAOK(rows, dn, q, 1, k, ratio, Brute(S, d, k))
  \* one block for everything: all sub-sequences with the same average are equally near
  /\ Len(q) <= MaxLen(rows) /\ MaxLen(rows) <= 2 =>
       LET far == TLCEval([t \in S |-> Warp(dn, Blocks(q, 2), Blocks(Sub(rows, t[1], t[2], t[3]), 2), ratio)])
       IN PAAOK(rows, dn, q, 2, 1, ratio, Brute(S, far, 1))

\* nearest group first, then the nearest of its members
BestHit(g) ==
  LET gd == GroupDists(g, dn, q, ratio)
      b == CHOOSE x \in DOMAIN gd : \A o \in DOMAIN gd : LE(gd[x], gd[o])
      d == DistsTo(Triples(g[b]))
  IN Brute(Triples(g[b]), d, 1)[1]
Best == Chosen => LET g == TLCEval(gs) IN
  BestPossible(g, Len(q), ratio) => BestOK(rows, dn, g, q, ratio, BestHit(g))

\* groups by distance until ke members are covered, the last group only in part
KBest(g, k, ke) ==
  LET gd == GroupDists(g, dn, q, ratio)
      order == SortSeq(SetToSeq(DOMAIN gd), LAMBDA x, y : LT(gd[x], gd[y]))
      take(acc, i) ==               \* acc = <<examined, how many>>
        IF acc[2] >= ke THEN acc ELSE
        LET T == Triples(g[i]) o == SortedDists(T, DistsTo(T))
            n == Min2(Len(o), ke - acc[2])
        IN <<acc[1] \cup {o[j] : j \in 1..n}, acc[2] + n>>
      S == FoldLeft(take, <<{}, 0>>, order)[1]
  IN Brute(S, DistsTo(S), k)
KNearest == Chosen => LET g == TLCEval(gs) IN \A k \in 1..2 : \A ke \in {k, k + 1, 9} :
  LET res == TLCEval(KBest(g, k, ke)) IN
  /\ KBestOK(rows, dn, g, q, k, ke, ratio, res)
  \* examining everything is the exhaustive search over the comparable lengths
  /\ ke >= MemberCount(g) =>
       LET S == UNION {Triples(g[i]) : i \in CompGroups(g, Len(q), ratio)} IN NearestOf(res, S, DistsTo(S), k)
=============================================================================
