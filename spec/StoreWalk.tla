------------------------------- MODULE StoreWalk -------------------------------
(* The store of Genex without values: which names hold which table, what was  *)
(* done to them, and what the file of groups contains.  TLC explores it       *)
(* completely and prints every step; the checks turn walks through these      *)
(* steps into sessions of the real library, which GenexTrace then judges with *)
(* values.  Steps that have to fail are part of it and lead back.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Tables
VARIABLES ds, file
vars == <<ds, file>>

None == "none"
Free == [tab |-> None, norm |-> FALSE, grp |-> FALSE, paa |-> FALSE]
Fresh(t) == [Free EXCEPT !.tab = t]
Has(n) == ds[n].tab # None
Empty == [kind |-> None, tab |-> None]

Init == ds = [n \in Names |-> Free] /\ file = Empty

Op(o, n, x, ok) == [o |-> o, n |-> n, x |-> x, ok |-> ok]
From == [ds |-> ds, file |-> file]
Shown(op) == PrintT("STEP " \o ToJson([from |-> From, op |-> op, to |-> [ds |-> ds', file |-> file']]))

\* an operation that is possible if can, and then makes dataset n what d is
Change(o, n, x, can, d) ==
  /\ ds' = IF can THEN [ds EXCEPT ![n] = d] ELSE ds
  /\ UNCHANGED file
  /\ Shown(Op(o, n, x, can))
Ask(o, n, x, can) == UNCHANGED vars /\ Shown(Op(o, n, x, can))

Load(n, t) == Change("load", n, t, ~Has(n), Fresh(t))
Unload(n) == Change("unload", n, "", Has(n), Free)
UnloadAll == ds' = [n \in Names |-> Free] /\ UNCHANGED file /\ Shown(Op("unloadall", "", "", TRUE))
Normalize(n) == Change("norm", n, "", Has(n), [ds[n] EXCEPT !.norm = TRUE])
Group(n) == Change("group", n, "", Has(n), [ds[n] EXCEPT !.grp = TRUE])
Prepare(n) == Change("prep", n, "", Has(n), [ds[n] EXCEPT !.paa = TRUE])
Save(n, k) == /\ file' = IF ds[n].grp THEN [kind |-> k, tab |-> ds[n].tab] ELSE file
              /\ UNCHANGED ds
              /\ Shown(Op("save", n, k, ds[n].grp))
Restore(n, k) == Change("restore", n, k, Has(n) /\ file.kind = k /\ file.tab = ds[n].tab, [ds[n] EXCEPT !.grp = TRUE])
\* wrong arguments
Bad(n) == \E o \in {"load missing", "load wrong", "group wrong", "group threads", "prep wrong", "restore cut", "restore junk",
                    "restore missing", "save nowhere", "k wrong"} : Ask(o, n, "", FALSE)
Queries(n, m) == \/ \E o \in {"best", "kbest"} : Ask(o, n, m, Has(n) /\ Has(m) /\ ds[n].grp)
                 \/ Ask("paa", n, m, Has(n) /\ Has(m) /\ ds[n].paa)
                 \/ \E o \in {"brute", "dist", "match"} : Ask(o, n, m, Has(n) /\ Has(m))
                 \/ n = m /\ Ask("ts", n, m, Has(n))

Next == \/ UnloadAll
        \/ \E n \in Names : \/ Unload(n) \/ Normalize(n) \/ Group(n) \/ Prepare(n) \/ Bad(n)
                            \/ \E t \in Tables : Load(n, t)
                            \/ \E k \in {"bin", "txt"} : Save(n, k) \/ Restore(n, k)
                            \/ \E m \in Names : Queries(n, m)

\* nothing is known about a free name, and only tables are in the file
Sane == /\ \A n \in Names : ~Has(n) => ds[n] = Free
        /\ (file.kind = None) = (file.tab = None)
        /\ file.tab \in Tables \cup {None}
=============================================================================
