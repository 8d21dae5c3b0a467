-------------------------------- MODULE Query --------------------------------
(* Searches.  A result is a sequence of records x, s, e (index, start, end)  *)
(* and t (total of the reported distance); q is the query's value sequence.  *)
EXTENDS Grouping

RDist(rows, dn, q, h, ratio) == Warp(dn, q, Sub(rows, h.x, h.s, h.e), ratio)
Keys(res) == {<<res[k].x, res[k].s, res[k].e>> : k \in 1..Len(res)}
Distinct(res) == Cardinality(Keys(res)) = Len(res)
InRange(rows, res) == \A k \in 1..Len(res) :
  /\ res[k].x >= 0 /\ res[k].x < Len(rows)
  /\ res[k].s >= 0 /\ res[k].e - res[k].s >= 1 /\ res[k].e <= Len(rows[res[k].x + 1])

SortedDists(S, d) == SortSeq(SetToSeq(S), LAMBDA x, y : LT(d[x], d[y]))

\* res lists k nearest of the sub-sequences S, whose distances are d
NearestOf(res, S, d, k) ==
  LET sorted == SortedDists(S, d) IN
  /\ Len(res) = Min2(k, Cardinality(S))
  /\ Distinct(res)
  /\ \A i \in 1..Len(res) :
       LET t == <<res[i].x, res[i].s, res[i].e>> IN
       /\ t \in S
       /\ res[i].t = d[t][1]
       /\ EQ(d[t], d[sorted[i]])

\* ---- exhaustive search ------------------------------------------------------
BruteOK(rows, dn, q, k, ratio, res) ==
  LET S == TLCEval(Subs2(rows))
      d == TLCEval([t \in S |-> Warp(dn, q, Sub(rows, t[1], t[2], t[3]), ratio)])
  IN NearestOf(res, S, d, k)

\* ---- search on block averages ----------------------------------------------
PAAOK(rows, dn, q, bs, k, ratio, res) ==
  LET S == TLCEval(Subs2(rows))
      eff == Min2(bs, Max2(MaxLen(rows), 1))
      aq == TLCEval(Blocks(q, eff))
      d == TLCEval([t \in S |-> Warp(dn, aq, TLCEval(Blocks(Sub(rows, t[1], t[2], t[3]), eff)), ratio)])
  IN NearestOf(res, S, d, k)

\* ---- search with groups ------------------------------------------------------
\* sub-sequences of one point are never matched
Comparable(lq, l, ratio) == l >= 2 /\ Abs(lq - l) <= Band(Max2(lq, l), ratio)
CompGroups(gs, lq, ratio) == {g \in 1..Len(gs) : Comparable(lq, gs[g].l, ratio)}
GroupDists(gs, dn, q, ratio) ==
  TLCEval([g \in CompGroups(gs, Len(q), ratio) |-> Warp(dn, gs[g].r, q, ratio)])
Triples(g) == {<<g.m[k][1], g.m[k][2], g.m[k][2] + g.l>> : k \in 1..Len(g.m)}

BestPossible(gs, lq, ratio) == lq >= 2 /\ CompGroups(gs, lq, ratio) # {}

\* gd: distances of the representatives of the comparable groups, D: of sub-sequences
BestBy(gs, gd, D(_), h) ==
  LET t == <<h.x, h.s, h.e>>
  IN \E g \in DOMAIN gd :
       /\ \A o \in DOMAIN gd : LE(gd[g], gd[o])
       /\ t \in Triples(gs[g])
       /\ LET d == TLCEval([u \in Triples(gs[g]) |-> D(u)])
          IN /\ h.t = d[t][1]
             /\ \A u \in DOMAIN d : LE(d[t], d[u])
BestOK(rows, dn, gs, q, ratio, h) ==
  BestBy(gs, GroupDists(gs, dn, q, ratio), LAMBDA u : Warp(dn, q, Sub(rows, u[1], u[2], u[3]), ratio), h)

Count(gs, S) == FoldLeft(LAMBDA a, g : a + Len(gs[g].m), 0, SetToSeq(S))

\* k nearest of the examined sub-sequences: all of the groups A and the nr nearest of group g
ExaminedOK(d, gs, res, k, A, g, nr) ==
  LET TA == UNION {Triples(gs[a]) : a \in A}
      TG == Triples(gs[g])
      sg == SortedDists(TG, d)
      near == {sg[i] : i \in 1..Min2(nr, Len(sg))}
      S == TA \cup near
      sorted == SortedDists(S, d)
  IN /\ Len(res) = Min2(k, Cardinality(S))
     /\ Distinct(res)
     /\ \A i \in 1..Len(res) :
          LET t == <<res[i].x, res[i].s, res[i].e>> IN
          /\ t \in TA \cup TG                  \* ties may be broken either way
          /\ res[i].t = d[t][1]
          /\ EQ(d[t], d[sorted[i]])

\* the same for many groups B at the boundary distance, of which any may be examined:
\* ke of them and of the groups A are, and the answer is not better than all and not worse than A alone
AtBoundaryOK(d, gs, res, k, ke, A, B) ==
  LET TA == UNION {Triples(gs[a]) : a \in A}
      TB == UNION {Triples(gs[b]) : b \in B}
      sa == SortedDists(TA, d)
      sall == SortedDists(TA \cup TB, d)
  IN /\ Len(res) = Min2(k, ke)
     /\ Distinct(res)
     /\ \A i \in 1..Len(res) :
          LET t == <<res[i].x, res[i].s, res[i].e>> IN
          /\ t \in TA \cup TB
          /\ res[i].t = d[t][1]
          /\ i > 1 => LE(d[<<res[i - 1].x, res[i - 1].s, res[i - 1].e>>], d[t])
          /\ LE(d[sall[i]], d[t])
          /\ i <= Len(sa) => LE(d[t], d[sa[i]])

KBestBy(gs, gd, D(_), k, ke, res) ==
  LET CG == DOMAIN gd
      N == Count(gs, CG)
      dists(S) == TLCEval([u \in UNION {Triples(gs[a]) : a \in S} |-> D(u)])
  IN IF CG = {} THEN res = <<>>
     ELSE IF N <= ke
       THEN LET d == TLCEval(dists(CG)) IN \E g \in CG : ExaminedOK(d, gs, res, k, CG \ {g}, g, Len(gs[g].m))
     ELSE
       LET fits(g) == Count(gs, {o \in CG : LE(gd[o], gd[g])}) >= ke
           F == {g \in CG : fits(g)}
           b == CHOOSE g \in F : \A o \in F : LE(gd[g], gd[o])      \* a group at the boundary distance
           A == {g \in CG : LT(gd[g], gd[b])}
           B == {g \in CG : EQ(gd[g], gd[b])}
           d == TLCEval(dists(A \cup B))
       IN IF Cardinality(B) > 8 THEN AtBoundaryOK(d, gs, res, k, ke, A, B) ELSE
          \E B1 \in SUBSET B : \E g \in B1 :
            /\ Count(gs, A \cup B1) >= ke
            /\ Count(gs, A \cup (B1 \ {g})) < ke
            /\ ExaminedOK(d, gs, res, k, A \cup (B1 \ {g}), g,
                          ke - Count(gs, A \cup (B1 \ {g})))
KBestOK(rows, dn, gs, q, k, ke, ratio, res) ==
  KBestBy(gs, GroupDists(gs, dn, q, ratio), LAMBDA u : Warp(dn, q, Sub(rows, u[1], u[2], u[3]), ratio), k, ke, res)
=============================================================================
