-------------------------------- MODULE Pool --------------------------------
(* What a pool of workers promises: every piece of work that is handed over  *)
(* is executed exactly once, its outcome is what the piece produced, and the *)
(* pool is gone only when all pieces have been executed.                     *)
EXTENDS Integers, FiniteSets
VARIABLES given,   \* pieces handed over
          run,     \* worker -> piece in execution, for busy workers
          ended,   \* piece -> outcome
          got,     \* pieces whose outcome was fetched
          gone     \* the pool has been destroyed
pvars == <<given, run, ended, got, gone>>

Fails == -1        \* outcome of a failing piece

Started == {run[w] : w \in DOMAIN run} \cup DOMAIN ended
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

PInit == given = {} /\ run = << >> /\ ended = << >> /\ got = {} /\ gone = FALSE

Give(i) == /\ ~gone /\ i \notin given
           /\ given' = given \cup {i}
           /\ UNCHANGED <<run, ended, got, gone>>
Start(w, i) == /\ ~gone /\ i \in given \ Started /\ w \notin DOMAIN run
               /\ run' = [v \in DOMAIN run \cup {w} |-> IF v = w THEN i ELSE run[v]]
               /\ UNCHANGED <<given, ended, got, gone>>
End(w, i, v) == /\ ~gone /\ w \in DOMAIN run /\ run[w] = i
                /\ run' = Restrict(run, DOMAIN run \ {w})
                /\ ended' = [j \in DOMAIN ended \cup {i} |-> IF j = i THEN v ELSE ended[j]]
                /\ UNCHANGED <<given, got, gone>>
Fetch(i, v) == /\ i \in DOMAIN ended /\ i \notin got /\ ended[i] = v
               /\ got' = got \cup {i}
               /\ UNCHANGED <<given, run, ended, gone>>
Gone == /\ ~gone /\ run = << >> /\ DOMAIN ended = given
        /\ gone' = TRUE
        /\ UNCHANGED <<given, run, ended, got>>

ExactlyOnce == gone => DOMAIN ended = given
=============================================================================
