------------------------------ MODULE GenexTrace ------------------------------
(* Recorded sessions of the real library against the specification.          *)
(*                                                                           *)
(* Every line of the trace file is one session: [G |-> grid, ev |-> events]. *)
(* Step l of session tr evaluates event l in the store that the previous     *)
(* events lead to: the specification says whether the operation must succeed *)
(* and what it may answer and leave behind.  bad is the set of properties    *)
(* that the event contradicts; the invariant excludes the property in focus. *)
(* What a property does not speak about is taken over from the recording, so *)
(* that each property is judged on its own.                                  *)
EXTENDS Genex, Json, IOUtils

TraceFile == IOEnv.TRACE
Focus == IOEnv.FOCUS
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>

G == Traces[tr].G
Everything == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
               "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C24"}
\* properties that an operation with a wrong success or failure contradicts
When(c, ids) == IF c THEN ids ELSE {}

\* distance totals of the recording: -1 is infinity
Tot(t) == IF t = -1 THEN Inf ELSE t
Res(r) == [k \in 1..Len(r) |-> [x |-> r[k].x, s |-> r[k].s, e |-> r[k].e, t |-> Tot(r[k].t)]]

\* observed dataset against the specification's
ObsRows(o) == o.rows
SameData(d, o) == d.rows = o.rows /\ d.names = o.names /\ d.bits = o.bits
SameMarks(d, o) == d.norm = o.norm
SameGrp(d, o) == d.grp = o.grp
ObsOK(d, o) ==
  /\ SameData(d, o) /\ SameMarks(d, o) /\ SameGrp(d, o)
  /\ o.cnt = Len(o.rows) /\ o.max = MaxLen(o.rows)
Adopt(d, o) == [d EXCEPT !.rows = o.rows, !.names = o.names, !.norm = o.norm, !.grp = o.grp, !.bits = o.bits]

Out(s, b) == [st |-> s, bad |-> b]
WithDs(s, n, d) == [s EXCEPT !.ds = Put(s.ds, n, d)]
WithFile(s, p, f, dig) == [s EXCEPT !.files = Put(s.files, p, f @@ [dig |-> dig])]

\* wrong outcome: own is the property the operation belongs to
Outcome(e, must, own) == When(e.ok # must, {own, "C02", "C03", "C18", "C19", "C22"})

\* ---- one operator per kind of event --------------------------------------------
DoFile(e) == Out(WithFile(st, e.p, [kind |-> e.kind, lines |-> e.lines], e.dig), {})

Seps(e) == {e.seps[i] : i \in 1..Len(e.seps)}
DoLoad(e) ==
  LET exists == e.p \in DOMAIN st.files
      \* values outside the grid, or a saved dataset read in another way
      foreign == exists /\ \/ st.files[e.p].kind = "opaque"
                           \/ st.files[e.p].kind = "data" /\ st.files[e.p].named # e.named
      p == IF foreign /\ e.ok
           THEN [ok |-> TRUE, rows |-> e.post.rows, names |-> e.post.names]
           ELSE IF exists THEN FileParse(st.files[e.p], Seps(e), e.maxrow, e.startcol, e.named, G)
           ELSE [ok |-> FALSE, rows |-> <<>>, names |-> <<>>]
      must == ~Has(st, e.n) /\ p.ok
      own == IF Has(st, e.n) THEN "C02" ELSE IF exists /\ st.files[e.p].kind = "data" THEN "C17" ELSE "C01"
      fresh == [NewDataset(p.rows, p.names, e.named) EXCEPT
                  !.bits = IF exists /\ ~foreign /\ st.files[e.p].kind = "data" THEN st.files[e.p].bits   \* exactly as saved
                           ELSE IF e.ok THEN e.post.bits ELSE 0]
      wrong == e.ok /\ must /\ ~(ObsOK(fresh, e.post) /\ e.info = [cnt |-> Len(p.rows), max |-> MaxLen(p.rows)])
  IN Out(IF e.ok THEN WithDs(st, e.n, Adopt(fresh, e.post)) ELSE st,
         When(~foreign \/ Has(st, e.n), Outcome(e, must, own)) \cup When(wrong, {own, "C02", "C19"}))

\* a single table object reads another file before: nothing of that one stays
DoReload(e) ==
  LET p == FileParse(st.files[e.p], Seps(e), e.maxrow, e.startcol, e.named, G)
      good == e.rows = p.rows /\ e.names = p.names /\ e.cnt = Len(p.rows) /\ e.max = MaxLen(p.rows) /\ ~e.norm
  IN Out(st, When(e.ok # p.ok \/ (e.ok /\ ~good), {"C01"}))
\* averages of the blocks of a sub-sequence
DoBlocks(e) ==
  LET rows == FileParse(st.files[e.p], {","}, 0, 0, FALSE, G).rows
      must == /\ e.bs >= 1 /\ ValidSub(rows, e.x, e.s, e.e)
              /\ Len(Sub(rows, e.x, e.s, e.e)) > 0
  IN Out(st, When(e.ok # must \/ (e.ok /\ must /\ e.vals # Blocks(Sub(rows, e.x, e.s, e.e), Min2(e.bs, Max2(MaxLen(rows), 1)))),
                  {"C14"}))

DoUnload(e) ==
  Out(IF e.ok /\ Has(st, e.n) THEN [st EXCEPT !.ds = Drop(@, e.n)] ELSE st,
      Outcome(e, Has(st, e.n), "C02"))
DoUnloadAll(e) == Out([st EXCEPT !.ds = EmptyFcn], When(~e.ok, {"C02", "C19"}))
\* of two stores in one program the second is emptied; its datasets are those with names in e.ns
DoDrop(e) ==
  LET left == DOMAIN st.ds \ {e.ns[i] : i \in 1..Len(e.ns)} IN
  Out([st EXCEPT !.ds = [n \in left |-> st.ds[n]]], When(~e.ok, {"C02"}))

\* memory, open files and threads after every repetition of one history that ends without datasets:
\* what is kept once (caches, buffers) does not grow with every repetition
Grows(s) == Len(s) >= 6 /\ \A i \in (Len(s) - 3)..Len(s) : s[i] > s[i - 1]
DoUsage(e) == Out(st, When(DOMAIN st.ds = {} /\ (Grows(e.heap) \/ Grows(e.files) \/ Grows(e.threads)), {"C24"}))

DoSeries(e) ==
  LET must == Has(st, e.n) /\ ValidSub(st.ds[e.n].rows, e.x, e.s, e.e) IN
  Out(st, Outcome(e, must, "C01") \cup
          When(e.ok /\ must /\ e.vals # Sub(st.ds[e.n].rows, e.x, e.s, e.e), {"C01", "C02", "C04", "C18", "C19"}))
DoSeriesName(e) ==
  LET must == Has(st, e.n) /\ e.x >= 0 /\ e.x < Len(st.ds[e.n].rows) IN
  Out(st, Outcome(e, must, "C01") \cup When(e.ok /\ must /\ e.name # st.ds[e.n].names[e.x + 1], {"C01", "C19"}))
DoSeriesLen(e) ==
  LET must == Has(st, e.n) /\ e.x >= 0 /\ e.x < Len(st.ds[e.n].rows) IN
  Out(st, Outcome(e, must, "C01") \cup When(e.ok /\ must /\ e.len # Len(st.ds[e.n].rows[e.x + 1]), {"C01", "C19"}))

DoNorm(e) ==
  LET must == Has(st, e.n) /\ Len(st.ds[e.n].rows) > 0 IN
  IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C04")) ELSE
  LET d == st.ds[e.n]
      V == Values(d.rows)
      unit == IF "grid" \in DOMAIN e THEN e.grid ELSE G     \* the values may have been in other units before
      good == /\ IsNormalized(d.rows, e.post.rows, unit)
              /\ e.post.names = d.names /\ e.post.norm
              /\ e.post.cnt = Len(d.rows) /\ e.post.max = MaxLen(d.rows)
              /\ GroupsKept(d, e.post.rows, e.post.grp)
              /\ V # {} => e.mn = MinOf(V) /\ e.mx = MaxOf(V)
  IN Out(WithDs(st, e.n, Adopt(d, e.post)),
         IF Focus \in {"C04", "C19"} THEN When(~good, {"C04", "C19"}) ELSE {})

DoGroup(e) ==
  LET must == CanGroup(st, e.n, e.dist, e.threads) IN
  IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C08")) ELSE
  LET d == st.ds[e.n]
      g == e.post.grp
      from == IF e.whole THEN MaxLen(d.rows) ELSE 2
      shape == /\ g.on /\ g.dist = e.dist /\ g.thr8 = e.thr8 /\ g.from = from
               /\ "thr" \in DOMAIN e => g.thr = e.thr
               /\ g.n = Len(g.gs) /\ e.cnt = Len(g.gs)
      part == shape /\ Partition(d.rows, from, g.gs)
      c08 == part /\ Represented(d.rows, g.gs)
      c09 == part => \/ e.dist \notin Ordered
                     \/ ScansOK(d.rows, e.dist, e.thr8, from, g.gs, G)
                        /\ WithinRadius(d.rows, e.dist, e.thr8, g.gs, G)
      kept == SameData(d, e.post) /\ SameMarks(d, e.post)
  IN Out(WithDs(st, e.n, Adopt(d, e.post)),
         (IF Focus \in {"C08", "C19"} THEN When(~c08, {"C08", "C19"}) ELSE {}) \cup
         (IF Focus = "C09" THEN When(~c09, {"C09"}) ELSE {}) \cup
         When(~kept, {"C08", "C02", "C18"}) \cup When(~shape, {"C08", "C02", "C03", "C10"}))

\* regrouping with another number of threads must give what is there
DoRegroup(e) ==
  LET must == CanGroup(st, e.n, e.dist, e.threads) IN
  IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C10")) ELSE
  LET d == st.ds[e.n] IN
  Out(WithDs(st, e.n, Adopt(d, e.post)),
      When(~(d.grp = e.post.grp /\ e.cnt = d.grp.n /\ ObsOK(d, e.post)), {"C10", "C18"}))

\* saving: e.limit >= 0 is the number of bytes that the storage takes
DoSave(e, kind) ==
  LET must == CanSaveGroups(st, e.n) /\ e.dir
      fails == must /\ e.limit >= 0 /\ e.limit < e.size    \* size of the complete file
  IN IF fails THEN Out(WithFile(st, e.p, [kind |-> "part", of |-> SavedGroups(st.ds[e.n], kind)], e.dig),
                       When(e.ok, {"C16"}))
     ELSE IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C15"))
     ELSE Out(WithFile(st, e.p, SavedGroups(st.ds[e.n], kind), e.dig), {})
DoSaveSizes(e) ==
  LET must == CanSaveGroups(st, e.n) /\ e.dir IN
  Out(IF e.ok THEN WithFile(st, e.p, [kind |-> "junk"], e.dig) ELSE st,
      Outcome(e, must, "C15") \cup
      (IF e.ok /\ must THEN When(e.szs # Sizes(st.ds[e.n]), {"C15", "C19"}) ELSE {}))
DoSaveData(e) ==
  LET must == Has(st, e.n) /\ e.dir
      fails == must /\ e.limit >= 0 /\ e.limit < e.size
  IN IF fails THEN Out(WithFile(st, e.p, [kind |-> "junk"], e.dig), When(e.ok, {"C16"}))
     ELSE IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C17"))
     ELSE LET d == st.ds[e.n] IN
          Out(WithFile(st, e.p, [kind |-> "data", rows |-> d.rows, names |-> d.names, named |-> d.named, bits |-> d.bits], e.dig), {})
\* the harness cuts a file off (never by zero bytes)
DoCut(e) ==
  LET f == st.files[e.p] IN
  Out(WithFile(st, e.to, IF f.kind \in {"bin", "txt"} THEN [kind |-> "part", of |-> f] ELSE [kind |-> "junk"], e.dig), {})
\* the harness changes bytes, words or lines of a saved file
DoDamage(e) ==
  LET f == st.files[e.p] IN
  Out(WithFile(st, e.to, IF f.kind \in {"bin", "txt"} THEN [kind |-> "damaged", of |-> f] ELSE [kind |-> "junk"], e.dig), {})
DoDelete(e) == Out([st EXCEPT !.files = Drop(@, e.p)], {})

DoLoadGroups(e, kind) ==
  LET exists == Has(st, e.n) /\ e.p \in DOMAIN st.files
      f == IF exists THEN st.files[e.p] ELSE [kind |-> "none"]
      part == exists /\ f.kind = "part" /\ f.of.kind = kind
      must == exists /\ Loadable(f, st.ds[e.n], kind)
  IN IF part
     THEN IF ~e.ok THEN Out(WithDs(st, e.n, Adopt(st.ds[e.n], e.post)),
                            When(~ObsOK(st.ds[e.n], e.post), {"C16", "C03"}))
          ELSE Out(WithDs(st, e.n, Adopt(st.ds[e.n], e.post)),
                   When(~(/\ Loadable(f.of, st.ds[e.n], kind)
                          /\ RestoredFrom(f.of, st.ds[e.n], e.post.grp)
                          /\ SameData(st.ds[e.n], e.post)), {"C16"}))
     ELSE IF exists /\ f.kind = "damaged"
     THEN LET d == st.ds[e.n] IN
          Out(WithDs(st, e.n, Adopt(d, e.post)),
              IF ~e.ok THEN When(~ObsOK(d, e.post), {"C22", "C03"})
              ELSE When(~(/\ f.of.kind = kind /\ e.cnt = e.post.grp.n /\ AfterDamage(f.of, d, e.post.grp)
                          /\ SameData(d, e.post) /\ SameMarks(d, e.post)), {"C22"}))
     ELSE IF ~(e.ok /\ must) THEN Out(st, Outcome(e, must, "C15") \cup When(e.ok, {"C16"}))
     ELSE LET d == st.ds[e.n] IN
          Out(WithDs(st, e.n, Adopt(d, e.post)),
              When(~(/\ RestoredFrom(f, d, e.post.grp) /\ e.cnt = f.grp.n
                     /\ SameData(d, e.post) /\ SameMarks(d, e.post)), {"C15", "C02", "C19"}))

\* a ratio that is not a number is recorded as <<0, 0>>
DoRatio(e) ==
  LET must == e.r[1] >= 0 /\ e.r[2] > 0 IN
  Out(IF e.ok /\ must THEN [st EXCEPT !.ratio = e.r] ELSE st, Outcome(e, must, "C22"))
DoPrepare(e) ==
  LET must == Has(st, e.n) /\ e.bs >= 1 IN
  Out(IF e.ok /\ must THEN [st EXCEPT !.ds[e.n].paa = e.bs] ELSE st, Outcome(e, must, "C14"))

\* ---- queries --------------------------------------------------------------------
Q(e) == Sub(st.ds[e.q].rows, e.x, e.s, e.e)
\* cosine and sorensen distances are given by their ranks, for all sub-sequences of the target
Ranked(e) == "ranks" \in DOMAIN e
Ranks(e) == [t \in {<<e.ranks[i][1], e.ranks[i][2], e.ranks[i][3]>> : i \in 1..Len(e.ranks)} |->
               LET i == CHOOSE i \in 1..Len(e.ranks) : SubSeq(e.ranks[i], 1, 3) = t
               IN <<IF e.ranks[i][4] = -1 THEN Inf ELSE e.ranks[i][4], 1>>]
RankedGroups(d, ranks, lq, ratio) ==
  TLCEval([g \in CompGroups(d.grp.gs, lq, ratio) |->
    LET R == {t \in Triples(d.grp.gs[g]) : Sub(d.rows, t[1], t[2], t[3]) = d.grp.gs[g].r}
    IN IF R = {} THEN <<Inf, 1>> ELSE ranks[CHOOSE t \in R : TRUE]])
Wrong(c, own) == When(c, {own, "C02", "C03", "C15", "C18", "C19", "C22"})
DoBest(e) ==
  LET must == CanBest(st, e.t, e.q, e.x, e.s, e.e) IN
  Out(st, Outcome(e, must, "C11") \cup
          Wrong(e.ok /\ must /\
                LET d == st.ds[e.t] r == Res(e.res) IN
                ~(/\ Len(r) = 1 /\ InRange(d.rows, r)
                  /\ IF d.grp.dist \in Ordered THEN BestOK(d.rows, d.grp.dist, d.grp.gs, Q(e), st.ratio, r[1])
                     ELSE Ranked(e) => LET ranks == TLCEval(Ranks(e)) IN
                                       BestBy(d.grp.gs, RankedGroups(d, ranks, Len(Q(e)), st.ratio), LAMBDA t : ranks[t], r[1])), "C11"))
DoKBest(e) ==
  LET must == CanKBest(st, e.k, e.ke, e.t, e.q, e.x, e.s, e.e) IN
  Out(st, Outcome(e, must, "C12") \cup
          Wrong(e.ok /\ must /\
                LET d == st.ds[e.t] r == Res(e.res) IN
                ~(/\ InRange(d.rows, r)
                  /\ IF d.grp.dist \in Ordered THEN KBestOK(d.rows, d.grp.dist, d.grp.gs, Q(e), e.k, e.ke, st.ratio, r)
                     ELSE Ranked(e) => LET ranks == TLCEval(Ranks(e)) IN
                                       KBestBy(d.grp.gs, RankedGroups(d, ranks, Len(Q(e)), st.ratio), LAMBDA t : ranks[t], e.k, e.ke, r)), "C12"))
DoBrute(e) ==
  LET must == CanBrute(st, e.k, e.t, e.q, e.x, e.s, e.e, e.dist) IN
  Out(st, Outcome(e, must, "C13") \cup
          Wrong(e.ok /\ must /\
                LET d == st.ds[e.t] r == Res(e.res) IN
                ~(/\ InRange(d.rows, r)
                  /\ IF e.dist \in Ordered THEN BruteOK(d.rows, e.dist, Q(e), e.k, st.ratio, r)
                     ELSE Ranked(e) => NearestOf(r, Subs2(d.rows), TLCEval(Ranks(e)), e.k)), "C13"))
DoPAA(e) ==
  LET must == CanPAA(st, e.k, e.t, e.q, e.x, e.s, e.e, e.dist) IN
  Out(st, Outcome(e, must, "C14") \cup
          Wrong(e.ok /\ must /\ e.dist \in Ordered /\
                LET d == st.ds[e.t] r == Res(e.res) IN
                ~(/\ InRange(d.rows, r)
                  /\ PAAOK(d.rows, e.dist, Q(e), d.paa, e.k, st.ratio, r)), "C14"))

\* ---- distances --------------------------------------------------------------------
A1(e) == Sub(st.ds[e.n1].rows, e.x1, e.s1, e.e1)
A2(e) == Sub(st.ds[e.n2].rows, e.x2, e.s2, e.e2)
PairArgs(e) ==
  /\ Has(st, e.n1) /\ Has(st, e.n2)
  /\ ValidSub(st.ds[e.n1].rows, e.x1, e.s1, e.e1) /\ ValidSub(st.ds[e.n2].rows, e.x2, e.s2, e.e2)
PairValue(e, a, b) ==
  CASE e.dist \in Ordered -> Tot(e.t) = PairT(e.dist, a, b)
    [] e.dist = "sorensen" ->                       \* e.t / e.u
         IF SorDen(a, b) = 0 THEN TRUE ELSE e.t * SorDen(a, b) = e.u * SorNum(a, b)
    [] e.dist = "cosine" ->                         \* sign e.sg, square e.t / e.u
         LET n == Dot(a, b) IN
         IF Dot(a, a) = 0 \/ Dot(b, b) = 0 THEN TRUE
         ELSE /\ e.sg = (IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0)
              /\ e.t * (Dot(a, a) * Dot(b, b)) = e.u * (n * n)
    [] OTHER -> TRUE
DoDist(e) ==
  IF ~PairArgs(e) THEN Out(st, Outcome(e, FALSE, "C05")) ELSE
  LET a == A1(e) b == A2(e)
      must == IF e.warp THEN e.dist \in AllDist /\ Len(a) > 0 /\ Len(b) > 0
              ELSE e.dist \in AllDist /\ Len(a) = Len(b)
      good == IF e.warp THEN e.dist \notin Ordered \/ Tot(e.t) = WarpT(e.dist, a, b, st.ratio)
              ELSE Len(a) = 0 \/ PairValue(e, a, b)
  IN Out(st, Outcome(e, must, "C05") \cup When(e.ok /\ must /\ ~good, {"C05", "C18", "C19"}))
DoMatch(e) ==
  IF ~PairArgs(e) THEN Out(st, Outcome(e, FALSE, "C06")) ELSE
  LET a == A1(e) b == A2(e)
      must == e.warp /\ e.dist \in AllDist /\ Len(a) > 0 /\ Len(b) > 0
      p == [k \in 1..Len(e.path) |-> <<e.path[k][1] + 1, e.path[k][2] + 1>>]
      r == Band(Max2(Len(a), Len(b)), st.ratio)
      T == WarpT(e.dist, a, b, st.ratio)
      positive == (\A i \in 1..Len(a) : a[i] > 0) /\ (\A i \in 1..Len(b) : b[i] > 0)
      good == IF e.dist \in Ordered
              THEN T = Inf \/ (IsPath(p, Len(a), Len(b), r) /\ PathCost(e.dist, a, b, p) = T)
              ELSE positive /\ Abs(Len(a) - Len(b)) <= r => IsPath(p, Len(a), Len(b), r)
  IN Out(st, Outcome(e, must, "C06") \cup When(e.ok /\ must /\ ~good, {"C06", "C18", "C19"}))

\* ---- lower bounds and cut-offs -------------------------------------------------------
\* e.what: "kim", "keogh", "cross", "lower", "upper", "cut" (distance with cut-off total e.cut)
DoBound(e) ==
  LET a == A1(e) b == A2(e)
      m == Max2(Len(a), Len(b))
      T == WarpT("euclidean", a, b, st.ratio)
      exact == IF e.dist \notin Ordered THEN 0 ELSE
               IF e.warp THEN WarpT(e.dist, a, b, st.ratio) ELSE PairT(e.dist, a, b)
      cut == Tot(e.cut)
      good ==
        CASE e.what \in {"kim", "keogh", "cross"} -> T = Inf \/ Tot(e.t) <= T
          [] e.what = "ratio" -> \A i \in 1..Len(e.cuts) : e.cuts[i][2] = 1 \/ e.cuts[i] = <<0, 2>>
          [] e.what = "lower" -> e.env = EnvLo(a, Min2(e.w, Len(a) - 1))
          [] e.what = "upper" -> e.env = EnvHi(a, Min2(e.w, Len(a) - 1))
          [] e.what = "cut" -> \/ Tot(e.t) = exact
                               \/ Tot(e.t) = Inf /\ exact > cut
          [] OTHER -> FALSE
  IN Out(st, When(~e.ok \/ ~good, {"C07"}))

\* the names of all distances
DoDistances(e) == Out(st, When(~e.ok \/ {e.names[i] : i \in 1..Len(e.names)} # AllDist \cup {d \o "_dtw" : d \in AllDist},
                               {"C05", "C19"}))

\* ---- observations --------------------------------------------------------------------
ObsAgainst(s, e) ==
  LET same == /\ e.count = Cardinality(DOMAIN s.ds)
              /\ {e.list[i] : i \in 1..Len(e.list)} = DOMAIN s.ds
              /\ Len(e.list) = Cardinality(DOMAIN s.ds)
              /\ DOMAIN e.all = DOMAIN s.ds
              /\ \A n \in DOMAIN s.ds : ObsOK(s.ds[n], e.all[n])
      files == /\ DOMAIN e.files = DOMAIN s.files
               /\ \A p \in DOMAIN e.files : s.files[p].dig = e.files[p]
  IN Out([s EXCEPT !.ds = [n \in DOMAIN s.ds \cap DOMAIN e.all |-> Adopt(s.ds[n], e.all[n])]],
         When(~(same /\ files), Everything))
DoObs(e) == ObsAgainst(st, e)

Apply(e) ==
  CASE e.op = "file" -> DoFile(e)
    [] e.op = "load" -> DoLoad(e)
    [] e.op = "reload" -> DoReload(e)
    [] e.op = "blocks" -> DoBlocks(e)
    [] e.op = "unload" -> DoUnload(e)
    [] e.op = "unloadall" -> DoUnloadAll(e)
    [] e.op = "drop" -> DoDrop(e)
    [] e.op = "usage" -> DoUsage(e)
    [] e.op = "ts" -> DoSeries(e)
    [] e.op = "tsname" -> DoSeriesName(e)
    [] e.op = "tslen" -> DoSeriesLen(e)
    [] e.op = "norm" -> DoNorm(e)
    [] e.op = "group" -> DoGroup(e)
    [] e.op = "regroup" -> DoRegroup(e)
    [] e.op = "saveg" -> DoSave(e, "bin")
    [] e.op = "saveo" -> DoSave(e, "txt")
    [] e.op = "sizes" -> DoSaveSizes(e)
    [] e.op = "saved" -> DoSaveData(e)
    [] e.op = "cut" -> DoCut(e)
    [] e.op = "damage" -> DoDamage(e)
    [] e.op = "del" -> DoDelete(e)
    [] e.op = "loadg" -> DoLoadGroups(e, "bin")
    [] e.op = "loado" -> DoLoadGroups(e, "txt")
    [] e.op = "ratio" -> DoRatio(e)
    [] e.op = "prep" -> DoPrepare(e)
    [] e.op = "best" -> DoBest(e)
    [] e.op = "kbest" -> DoKBest(e)
    [] e.op = "brute" -> DoBrute(e)
    [] e.op = "paa" -> DoPAA(e)
    [] e.op = "dist" -> DoDist(e)
    [] e.op = "match" -> DoMatch(e)
    [] e.op = "dists" -> DoDistances(e)
    [] e.op = "bound" -> DoBound(e)
    [] e.op = "obs" -> DoObs(e)

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = EmptyStore(<<1, 10>>)
        /\ bad = {}
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET o == Apply(Traces[tr].ev[l]) IN st' = o.st /\ bad' = o.bad
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Conforms == Focus \notin bad
=============================================================================
