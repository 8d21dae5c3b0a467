------------------------------ MODULE Grouping ------------------------------
(* Groups of a dataset.  A grouping is a record                              *)
(*   dist   name of the distance          thr8   eight times the threshold   *)
(*   from   smallest grouped length       gs     the groups, in file order   *)
(* and a group is a record  l (length), r (representative), m (members, as   *)
(* <<index, start>>).                                                        *)
EXTENDS Data

\* sub-sequences that have to be grouped, as <<length, index, start>>
GroupedSubs(rows, from) ==
  UNION {UNION {{<<L, x - 1, s>> : s \in 0..(Len(rows[x]) - L)} : L \in from..Len(rows[x])} : x \in 1..Len(rows)}

MembersOf(gs) == UNION {{<<gs[g].l, gs[g].m[k][1], gs[g].m[k][2]>> : k \in 1..Len(gs[g].m)} : g \in 1..Len(gs)}
MemberCount(gs) == FoldLeft(LAMBDA a, g : a + Len(g.m), 0, gs)

Member(rows, l, m) == SubSeq(rows[m[1] + 1], m[2] + 1, m[2] + l)

\* every sub-sequence is in exactly one group of its length, and nothing else is
Partition(rows, from, gs) ==
  /\ MembersOf(gs) = GroupedSubs(rows, from)
  /\ MemberCount(gs) = Cardinality(GroupedSubs(rows, from))
\* groups are inhabited and represented by one of their members
Represented(rows, gs) ==
  \A g \in 1..Len(gs) : /\ Len(gs[g].m) > 0
                        /\ \E k \in 1..Len(gs[g].m) : gs[g].r = Member(rows, gs[g].l, gs[g].m[k])

\* distance total T of sequences of length len against half of the threshold
CmpHalf(dn, T, len, thr8, G) ==           \* -1 below, 0 equal, 1 above
  LET a == CASE dn = "euclidean" -> T * 256 [] OTHER -> T * 16
      b == CASE dn = "euclidean" -> thr8 * thr8 * len * G * G
             [] dn = "manhattan" -> thr8 * len * G
             [] OTHER -> thr8 * G
  IN IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
\* equality counts as inside where the real arithmetic is exact, in whatever way it is carried out
Exactly(dn, len, G) ==
  /\ G = 1
  /\ CASE dn = "euclidean" -> len \in {1, 4, 16, 64}
       [] dn = "manhattan" -> len \in {1, 2, 4, 8, 16, 32, 64}
       [] OTHER -> TRUE
Inside(dn, T, len, thr8, G) == CmpHalf(dn, T, len, thr8, G) <= 0
Undecided(dn, T, len, thr8, G) == ~Exactly(dn, len, G) /\ CmpHalf(dn, T, len, thr8, G) = 0

\* every member is within half of the threshold of its representative
WithinRadius(rows, dn, thr8, gs, G) ==
  \A g \in 1..Len(gs) : \A k \in 1..Len(gs[g].m) :
    Inside(dn, PairT(dn, gs[g].r, Member(rows, gs[g].l, gs[g].m[k])), gs[g].l, thr8, G)

\* scan order of the sub-sequences of a length: by start, then by series
ScanOrder(rows, L) ==
  SelectSeq([k \in 1..(MaxLen(rows) * Len(rows)) |-> <<(k - 1) % Len(rows), (k - 1) \div Len(rows)>>],
            LAMBDA m : m[2] + L <= Len(rows[m[1] + 1]))

\* observed groups of length L are a possible result of the scan
ScanOK(rows, dn, thr8, gs, L, G) ==
  LET GL == {g \in 1..Len(gs) : gs[g].l = L}
      order == TLCEval(ScanOrder(rows, L))
      mem == TLCEval([g \in GL |-> {gs[g].m[k] : k \in 1..Len(gs[g].m)}])
      step(acc, x) ==                     \* acc = <<created groups, still fine>>
        IF ~acc[2] THEN acc ELSE
        LET v == Member(rows, L, x)
            mine == {g \in GL : x \in mem[g]} IN
        IF Cardinality(mine) # 1 THEN <<acc[1], FALSE>> ELSE
        LET g == CHOOSE h \in mine : TRUE
            d == TLCEval([h \in acc[1] |-> PairT(dn, gs[h].r, v)])
            best == IF acc[1] = {} THEN Inf ELSE MinOf({d[h] : h \in acc[1]})
            joins == g \in acc[1] /\ d[g] = best
            founds == g \notin acc[1] /\ gs[g].r = v
            fine == IF acc[1] = {} THEN founds
                    ELSE IF Undecided(dn, best, L, thr8, G) THEN joins \/ founds
                    ELSE IF Inside(dn, best, L, thr8, G) THEN joins
                    ELSE founds
        IN <<acc[1] \cup {g}, fine>>
  IN FoldLeft(step, <<{}, TRUE>>, order)[2]
ScansOK(rows, dn, thr8, from, gs, G) ==
  \A L \in from..MaxLen(rows) : ScanOK(rows, dn, thr8, gs, L, G)

\* the groups of length L that the scan yields when ties go to the oldest group
ScanGroups(rows, dn, thr8, L, G) ==
  FoldLeft(LAMBDA gs, x :
    LET v == Member(rows, L, x)
        d == TLCEval([h \in 1..Len(gs) |-> PairT(dn, gs[h].r, v)])
        best == IF gs = <<>> THEN Inf ELSE MinOf({d[h] : h \in 1..Len(gs)})
        g == CHOOSE h \in 1..Len(gs) : d[h] = best /\ \A k \in 1..(h - 1) : d[k] # best
    IN IF gs # <<>> /\ Inside(dn, best, L, thr8, G)
       THEN [gs EXCEPT ![g].m = <<x>> \o @]
       ELSE Append(gs, [l |-> L, r |-> v, m |-> <<x>>]),
    <<>>, ScanOrder(rows, L))
AllGroups(rows, dn, thr8, from, G) ==
  FoldLeft(LAMBDA gs, L : gs \o ScanGroups(rows, dn, thr8, L, G), <<>>,
           [k \in 1..(MaxLen(rows) - from + 1) |-> from + k - 1])
=============================================================================
