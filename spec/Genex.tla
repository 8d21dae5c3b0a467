-------------------------------- MODULE Genex --------------------------------
(* The store of named datasets: what every library operation may do to it.   *)
(*                                                                           *)
(* A store is a record                                                       *)
(*   ds     function: dataset name -> dataset                                *)
(*   ratio  warping band ratio <<num, den>>                                  *)
(*   files  function: path -> file                                           *)
(* A dataset is a record                                                     *)
(*   rows, names, named (has a name column), norm,                           *)
(*   grp (NoGroups or a grouping, see Grouping), paa (block size or 0),      *)
(*   bits (digest of the exact values, where the real ones are not integers) *)
(* A file is a record with kind "text" (lines of characters), "data" (saved  *)
(* dataset), "bin" / "txt" (saved groups), "part" (cut off copy of a saved   *)
(* one), "damaged" (changed copy of a saved one) or "junk".                  *)
EXTENDS Query

NoGroups == [on |-> FALSE]
Grouped(d) == d.grp.on
Has(st, n) == n \in DOMAIN st.ds
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFcn == [x \in {} |-> 0]
EmptyStore(ratio) == [ds |-> EmptyFcn, ratio |-> ratio, files |-> EmptyFcn]

NewDataset(rows, names, named) ==
  [rows |-> rows, names |-> names, named |-> named, norm |-> FALSE, grp |-> NoGroups, paa |-> 0, bits |-> 0]

\* ---- loading ----------------------------------------------------------------
\* lines of a file as text; only for files written by the harness
FileParse(f, seps, maxRow, startCol, hasName, G) ==
  CASE f.kind = "text" -> ParseTable(f.lines, seps, maxRow, startCol, hasName, G)
    [] f.kind = "data" -> [ok |-> TRUE, rows |-> f.rows,
                           names |-> IF f.named THEN f.names ELSE [i \in 1..Len(f.rows) |-> ToString(i - 1)]]
    [] OTHER -> [ok |-> FALSE, rows |-> <<>>, names |-> <<>>]

\* ---- saved groups -------------------------------------------------------------
SavedGroups(d, kind) == [kind |-> kind, grp |-> d.grp, rows |-> d.rows]
SameDims(f, d) == Len(f.rows) = Len(d.rows) /\ MaxLen(f.rows) = MaxLen(d.rows)
\* a file with sizes only: for every length the number of groups and their sizes
SizesAt(d, n) == LET gs == SelectSeq(d.grp.gs, LAMBDA g : g.l = n) IN
                 <<Len(gs)>> \o [i \in 1..Len(gs) |-> Len(gs[i].m)]
RECURSIVE SizesFrom(_, _)
SizesFrom(d, n) == IF n > MaxLen(d.rows) THEN <<>> ELSE SizesAt(d, n) \o SizesFrom(d, n + 1)
Sizes(d) == SizesFrom(d, d.grp.from)
MembersExist(f, d) == \A g \in 1..Len(f.grp.gs) : \A k \in 1..Len(f.grp.gs[g].m) :
  f.grp.gs[g].m[k][2] + f.grp.gs[g].l <= Len(d.rows[f.grp.gs[g].m[k][1] + 1])
Loadable(f, d, kind) == f.kind = kind /\ SameDims(f, d) /\ MembersExist(f, d)

\* grouping g2 of the dataset rows d.rows is what was saved in f
SameGroup(f, d, a, b) ==
  /\ a.l = b.l
  /\ {a.m[k] : k \in 1..Len(a.m)} = {b.m[k] : k \in 1..Len(b.m)}
  /\ Len(a.m) = Len(b.m)
  /\ \/ a.r = b.r
     \/ \E k \in 1..Len(a.m) : Member(f.rows, a.l, a.m[k]) = a.r /\ Member(d.rows, b.l, a.m[k]) = b.r
     \* a text file has the values of the representative: when no member has them (any more), it is another member
     \/ /\ f.kind = "txt"
        /\ \A k \in 1..Len(a.m) : Member(d.rows, a.l, a.m[k]) # a.r
        /\ \E k \in 1..Len(a.m) : Member(d.rows, a.l, a.m[k]) = b.r
RestoredFrom(f, d, g2) ==
  /\ g2.on
  /\ g2.dist = f.grp.dist /\ g2.thr8 = f.grp.thr8 /\ g2.thr = f.grp.thr
  /\ g2.from = f.grp.from /\ g2.n = f.grp.n
  /\ Len(g2.gs) = Len(f.grp.gs)
  /\ \A g \in 1..Len(g2.gs) : SameGroup(f, d, f.grp.gs[g], g2.gs[g])

\* groups that a damaged copy of the saved file f may give: a binary file carries a
\* checksum, so only what was saved; a text file any groups that grouping could give
AfterDamage(f, d, g2) ==
  IF f.kind = "bin" THEN Loadable(f, d, "bin") /\ RestoredFrom(f, d, g2)
  ELSE /\ g2.on /\ g2.dist \in AllDist /\ g2.n = Len(g2.gs)
       /\ g2.from \in {2, MaxLen(d.rows)}
       /\ Partition(d.rows, g2.from, g2.gs) /\ Represented(d.rows, g2.gs)

\* groups of a dataset whose values were replaced: same members; the
\* representative is the same place of the new values, or kept
GroupsKept(d, rows2, g2) ==
  IF ~Grouped(d) THEN ~g2.on ELSE
  /\ g2.on /\ g2.dist = d.grp.dist /\ g2.thr8 = d.grp.thr8 /\ g2.thr = d.grp.thr
  /\ g2.from = d.grp.from /\ g2.n = d.grp.n /\ Len(g2.gs) = Len(d.grp.gs)
  /\ \A g \in 1..Len(g2.gs) :
       LET a == d.grp.gs[g] b == g2.gs[g] IN
       /\ a.l = b.l /\ a.m = b.m
       /\ \/ a.r = b.r
          \/ \E k \in 1..Len(a.m) : Member(d.rows, a.l, a.m[k]) = a.r /\ Member(rows2, a.l, a.m[k]) = b.r

\* ---- when an operation has to succeed -------------------------------------------
CanGroup(st, n, dist, threads) == Has(st, n) /\ dist \in AllDist /\ threads >= 1
CanSaveGroups(st, n) == Has(st, n) /\ Grouped(st.ds[n])
CanLoadGroups(st, n, p, kind) ==
  Has(st, n) /\ p \in DOMAIN st.files /\ Loadable(st.files[p], st.ds[n], kind)
QueryArgs(st, t, q, x, s, e) == Has(st, t) /\ Has(st, q) /\ ValidSub(st.ds[q].rows, x, s, e)
CanBest(st, t, q, x, s, e) ==
  /\ QueryArgs(st, t, q, x, s, e) /\ Grouped(st.ds[t])
  /\ BestPossible(st.ds[t].grp.gs, Len(Sub(st.ds[q].rows, x, s, e)), st.ratio)
CanKBest(st, k, ke, t, q, x, s, e) ==
  QueryArgs(st, t, q, x, s, e) /\ Grouped(st.ds[t]) /\ k > 0 /\ ke >= k
CanBrute(st, k, t, q, x, s, e, dist) ==
  QueryArgs(st, t, q, x, s, e) /\ k > 0 /\ dist \in AllDist
  /\ (Subs2(st.ds[t].rows) # {} => Len(Sub(st.ds[q].rows, x, s, e)) > 0)
CanPAA(st, k, t, q, x, s, e, dist) ==
  /\ CanBrute(st, k, t, q, x, s, e, dist) /\ st.ds[t].paa > 0
  /\ Len(Sub(st.ds[q].rows, x, s, e)) > 0
=============================================================================
