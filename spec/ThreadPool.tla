----------------------------- MODULE ThreadPool -----------------------------
(* The thread pool of the library at the granularity of its critical         *)
(* sections, with one client: it hands over N pieces, fetches the outcomes   *)
(* (How = "get"; until the first failure: How = "group"; not before          *)
(* destroying the pool: How = "drop") and destroys the pool. With            *)
(* How = "meet" a piece ends only when as many have started as there are     *)
(* workers: the pool has to run them at the same time.                       *)
(* Variant "code" is the design of the code; the others are broken designs   *)
(* that must be found wrong.                                                 *)
EXTENDS Pool, Sequences
CONSTANTS W,         \* number of workers
          N, Failing, How, Spurious, Variant
VARIABLES queue, stop, mutex, wpc, task, mpc, next
tvars == <<queue, stop, mutex, wpc, task, mpc, next>>
vars == <<pvars, tvars>>

Workers == 1..W
Main == 0
Free == -1
Value(i) == IF i \in Failing THEN Fails ELSE 100 + i

Init == /\ PInit
        /\ queue = << >> /\ stop = FALSE /\ mutex = Free
        /\ wpc = [w \in Workers |-> IF Variant = "fewer" /\ w = W THEN "done" ELSE "lock"] /\ task = [w \in Workers |-> -1]
        /\ mpc = (IF N = 0 THEN "stop" ELSE "give") /\ next = 0

Lock(p) == mutex = Free /\ mutex' = p

\* ---- workers
WLock(w) == /\ wpc[w] \in {"lock", "woken"}
            /\ Lock(w)
            /\ wpc' = [wpc EXCEPT ![w] = IF Variant = "if" /\ wpc[w] = "woken" THEN "take" ELSE "check"]
            /\ UNCHANGED <<pvars, queue, stop, task, mpc, next>>
WCheck(w) == /\ wpc[w] = "check"
             /\ \/ /\ ~((IF Variant = "stopless" THEN FALSE ELSE stop) \/ queue # << >>)
                   /\ wpc' = [wpc EXCEPT ![w] = "waiting"] /\ mutex' = Free
                   /\ UNCHANGED <<queue, task>>
                \/ /\ stop /\ (queue = << >> \/ Variant = "nodrain") /\ Variant # "stopless"
                   /\ wpc' = [wpc EXCEPT ![w] = "done"] /\ mutex' = Free
                   /\ UNCHANGED <<queue, task>>
                \/ /\ queue # << >> /\ ~(stop /\ Variant = "nodrain")
                   /\ task' = [task EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
                   /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ mutex' = Free
             /\ UNCHANGED <<pvars, stop, mpc, next>>
WTake(w) == /\ wpc[w] = "take"      \* only in variant "if"
            /\ IF queue = << >> THEN wpc' = [wpc EXCEPT ![w] = "crash"] /\ UNCHANGED <<queue, task>>
               ELSE /\ task' = [task EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
                    /\ wpc' = [wpc EXCEPT ![w] = "run"]
            /\ mutex' = Free
            /\ UNCHANGED <<pvars, stop, mpc, next>>
WRun(w) == /\ wpc[w] = "run" /\ Start(w, task[w])
           /\ wpc' = [wpc EXCEPT ![w] = "end"]
           /\ UNCHANGED <<queue, stop, mutex, task, mpc, next>>
Together == IF W < N THEN W ELSE N
WEnd(w) == /\ wpc[w] = "end" /\ (How = "meet" => Cardinality(Started) >= Together) /\ End(w, task[w], Value(task[w]))
           /\ wpc' = [wpc EXCEPT ![w] = IF Variant = "dies" /\ task[w] \in Failing THEN "done" ELSE "lock"]
           /\ UNCHANGED <<queue, stop, mutex, task, mpc, next>>
WSpurious(w) == /\ Spurious /\ wpc[w] = "waiting"
                /\ wpc' = [wpc EXCEPT ![w] = "woken"]
                /\ UNCHANGED <<pvars, queue, stop, mutex, task, mpc, next>>
Worker(w) == WLock(w) \/ WCheck(w) \/ WTake(w) \/ WRun(w) \/ WEnd(w)

\* ---- the client
Waiting == {w \in Workers : wpc[w] = "waiting"}
NotifyOne == IF Waiting = {} THEN UNCHANGED wpc
             ELSE \E w \in Waiting : wpc' = [wpc EXCEPT ![w] = "woken"]
NotifyAll == wpc' = [w \in Workers |-> IF w \in Waiting THEN "woken" ELSE wpc[w]]

MGive == /\ mpc = "give" /\ Give(next) /\ mpc' = "lock"
         /\ UNCHANGED <<queue, stop, mutex, wpc, task, next>>
MLock == /\ mpc \in {"lock", "stop"} /\ Lock(Main)
         /\ mpc' = IF mpc = "lock" THEN "push" ELSE "setstop"
         /\ UNCHANGED <<pvars, queue, stop, wpc, task, next>>
MPush == /\ mpc = "push" /\ queue' = Append(queue, next) /\ mutex' = Free
         /\ mpc' = "notify"
         /\ UNCHANGED <<pvars, stop, wpc, task, next>>
MNotify == /\ mpc = "notify"
           /\ IF Variant = "silent" THEN UNCHANGED wpc ELSE NotifyOne
           /\ next' = IF next + 1 = N THEN 0 ELSE next + 1
           /\ mpc' = IF next + 1 < N THEN "give" ELSE IF How = "drop" THEN "stop" ELSE "fetch"
           /\ UNCHANGED <<pvars, queue, stop, mutex, task>>
MFetch == /\ mpc = "fetch" /\ Fetch(next, Value(next))
          /\ next' = next + 1
          /\ mpc' = IF next + 1 = N \/ (How = "group" /\ next \in Failing) THEN "stop" ELSE "fetch"
          /\ UNCHANGED <<queue, stop, mutex, wpc, task>>
MStop == /\ mpc = "setstop" /\ stop' = TRUE /\ mutex' = Free /\ mpc' = "notifyall"
         /\ UNCHANGED <<pvars, queue, wpc, task, next>>
MNotifyAll == /\ mpc = "notifyall"
              /\ IF Variant = "notifyone" THEN NotifyOne ELSE NotifyAll
              /\ mpc' = "join"
              /\ UNCHANGED <<pvars, queue, stop, mutex, task, next>>
\* the pool is gone when all workers have ended; that this satisfies Gone is the point
MJoin == /\ mpc = "join" /\ \A w \in Workers : wpc[w] = "done"
         /\ gone' = TRUE /\ mpc' = "gone"
         /\ UNCHANGED <<given, run, ended, got, queue, stop, mutex, wpc, task, next>>
Client == MGive \/ MLock \/ MPush \/ MNotify \/ MFetch \/ MStop \/ MNotifyAll \/ MJoin

Done == mpc = "gone" /\ UNCHANGED vars
Next == Client \/ (\E w \in Workers : Worker(w) \/ WSpurious(w)) \/ Done
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Client) /\ SF_vars(MLock)
        /\ \A w \in Workers : WF_vars(Worker(w)) /\ SF_vars(WLock(w))

\* ---- properties
Mutual == \A w \in Workers : wpc[w] \in {"check", "take"} => mutex = w
NoCrash == \A w \in Workers : wpc[w] # "crash"
\* every step is a step of the promised behaviour, or invisible to the client
PoolStep == \/ \E i \in 0..N-1 : Give(i)
            \/ \E w \in Workers, i \in 0..N-1 : Start(w, i) \/ End(w, i, Value(i))
            \/ \E i \in 0..N-1 : Fetch(i, Value(i))
            \/ Gone
Refines == [][PoolStep]_pvars
Terminates == <>(mpc = "gone")
=============================================================================
