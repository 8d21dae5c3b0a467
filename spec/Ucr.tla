--------------------------------- MODULE Ucr ---------------------------------
(* The bundled search of a long recording for the window that is nearest to a *)
(* query, after both are brought to mean 0 and deviation 1, under a band of   *)
(* warping: its distance, its lower bounds and its answer.                    *)
EXTENDS Dist

\* ---- pieces, on integers ----------------------------------------------------
D(a, b, r) == DTW("euclidean", a, b, r)
\* exact below the cut, and not below the cut otherwise; -1 is no cut
DtwOK(a, b, r, cut, t) ==
  LET d == D(a, b, r) IN IF cut = -1 \/ d < cut THEN t = d ELSE t >= cut \/ t = -1

\* a bound from the ends alone holds under every band
KimOK(a, b, t) == t >= 0 /\ t <= D(a, b, Len(a) - 1)

\* the least a point can cost inside the band
Near(x, b, i, r) == MinOf({Cell("euclidean", x, b[k]) : k \in Max2(1, i - r)..Min2(Len(b), i + r)})
\* parts cb of the bound t, -1 where it was not needed any more
KeoghOK(a, b, r, cut, t, cb) ==
  /\ Len(cb) = Len(a)
  /\ \A i \in 1..Len(a) : cb[i] = -5 \/ (cb[i] >= 0 /\ cb[i] <= Near(a[i], b, i, r))
  /\ t = SumSeq([i \in 1..Len(cb) |-> IF cb[i] = -5 THEN 0 ELSE cb[i]])
  /\ (\E i \in 1..Len(cb) : cb[i] = -5) => (cut # -1 /\ t >= cut)

\* ---- the search: fixed point numbers of 1/1000 ------------------------------
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo                         \* the largest x with x * x <= n
                   ELSE LET c == (lo + hi + 1) \div 2 IN IF c * c <= n THEN Root(n, c, hi) ELSE Root(n, lo, c - 1)
Normal(w) ==
  LET m == Len(w)
      S == SumSeq(w)
      v == m * SumSeq([i \in 1..m |-> w[i] * w[i]]) - S * S
      One(x) == LET n == m * x - S
                    q == (1000 * n * n) \div v
                    z == Root(1000 * q + (1000 * ((1000 * n * n) % v)) \div v, 0, 5000)
                IN IF n < 0 THEN -z ELSE z
  IN [i \in 1..m |-> One(w[i])]
Varies(w) == \E i \in 1..Len(w) : w[i] # w[1]
\* squared distance in units of 10^-6, and how far rounding may take it
Dz(w, q, r) == D(TLCEval(Normal(w)), q, r)
Tol(d) == d \div 50 + 15000

WindowAt(data, p, m) == SubSeq(data, p + 1, p + m)
\* loc: where the answer begins (from 0), dist: its distance times 1000
SearchOK(data, query, r, loc, dist, scanned) ==
  LET m == Len(query)
      q == TLCEval(Normal(query))
      at == TLCEval([p \in 0..(Len(data) - m) |-> Dz(WindowAt(data, p, m), q, r)])
      best == MinOf({at[p] : p \in DOMAIN at})
  IN /\ scanned = Len(data)
     /\ loc \in DOMAIN at
     /\ at[loc] <= best + Tol(best)
     /\ Abs(dist * dist - at[loc]) <= Tol(at[loc])
\* of a long recording only the answer and the windows put into it are known
LongOK(win, query, puts, n, r, loc, dist, scanned) ==
  LET m == Len(query)
      q == TLCEval(Normal(query))
      d == Dz(win, q, r)
  IN /\ scanned = n
     /\ Len(win) = m /\ loc >= 0 /\ Varies(win)
     /\ \A k \in 1..Len(puts) : LET p == Dz(puts[k], q, r) IN d <= p + Tol(p)
     /\ Abs(dist * dist - d) <= Tol(d)

\* ---- the bound from the ends, level by level --------------------------------
C(a, b, i, j) == Cell("euclidean", a[i], b[j])
\* guard: levels that would count one pair of points twice are left out
KimHier(a, b, guard) ==
  LET m == Len(a)
      e == m + 1
      l1 == C(a, b, 1, 1) + C(a, b, m, m)
      l2 == MinOf({C(a, b, 2, 1), C(a, b, 1, 2), C(a, b, 2, 2)}) +
            MinOf({C(a, b, e - 2, e - 1), C(a, b, e - 1, e - 2), C(a, b, e - 2, e - 2)})
      l3 == MinOf({C(a, b, 1, 3), C(a, b, 2, 3), C(a, b, 3, 3), C(a, b, 3, 2), C(a, b, 3, 1)}) +
            MinOf({C(a, b, e - 1, e - 3), C(a, b, e - 2, e - 3), C(a, b, e - 3, e - 3), C(a, b, e - 3, e - 2), C(a, b, e - 3, e - 1)})
  IN IF m = 1 THEN C(a, b, 1, 1)
     ELSE IF m < 3 \/ (guard /\ m < 4) THEN l1
     ELSE IF guard /\ m < 6 THEN l1 + l2
     ELSE l1 + l2 + l3
=============================================================================
