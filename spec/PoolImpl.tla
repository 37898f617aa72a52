------------------------------ MODULE PoolImpl -----------------------------
(* The algorithm of the thread pool: workers sleep on a condition variable   *)
(* guarded by the queue's mutex.  Every access to shared state is one step.  *)
(* Checked: it refines the pool seen from outside (Abs), never loses a       *)
(* wakeup (Progress) and terminates (Done).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W, T              \* numbers of workers and of tasks
VARIABLES mutex,            \* 0 or the holder: worker, or W+1 the owner of the pool
          stop, q, pc, cur, waiting, opc, nsub, finished
vars == <<mutex, stop, q, pc, cur, waiting, opc, nsub, finished>>

Ws == 1..W
Main == W + 1
Init == /\ mutex = 0 /\ stop = FALSE /\ q = <<>> /\ waiting = {}
        /\ pc = [w \in Ws |-> "lock"] /\ cur = [w \in Ws |-> 0]
        /\ opc = "idle" /\ nsub = 0 /\ finished = {}

Lock(w) == /\ pc[w] = "lock" /\ mutex = 0 /\ mutex' = w
           /\ pc' = [pc EXCEPT ![w] = "test"]
           /\ UNCHANGED <<stop, q, cur, waiting, opc, nsub, finished>>
Test(w) == /\ pc[w] = "test"
           /\ IF stop \/ q # <<>> THEN pc' = [pc EXCEPT ![w] = "take"] /\ UNCHANGED <<mutex, waiting>>
              ELSE /\ pc' = [pc EXCEPT ![w] = "wait"]     \* releases the mutex and sleeps, atomically
                   /\ waiting' = waiting \cup {w} /\ mutex' = 0
           /\ UNCHANGED <<stop, q, cur, opc, nsub, finished>>
Woken(w) == /\ pc[w] = "wait" /\ w \notin waiting /\ pc' = [pc EXCEPT ![w] = "lock"]
            /\ UNCHANGED <<mutex, stop, q, cur, waiting, opc, nsub, finished>>
Spurious(w) == /\ w \in waiting /\ waiting' = waiting \ {w}
               /\ UNCHANGED <<mutex, stop, q, pc, cur, opc, nsub, finished>>
Take(w) == /\ pc[w] = "take" /\ mutex' = 0
           /\ IF q = <<>> THEN pc' = [pc EXCEPT ![w] = "exit"] /\ UNCHANGED <<q, cur>>
              ELSE /\ cur' = [cur EXCEPT ![w] = Head(q)] /\ q' = Tail(q)
                   /\ pc' = [pc EXCEPT ![w] = "run"]
           /\ UNCHANGED <<stop, waiting, opc, nsub, finished>>
Finish(w) == /\ pc[w] = "run" /\ finished' = finished \cup {cur[w]}
             /\ cur' = [cur EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = "lock"]
             /\ UNCHANGED <<mutex, stop, q, waiting, opc, nsub>>
(* the owner submits T tasks, then destroys the pool *)
Submit == /\ opc = "idle" /\ nsub < T /\ mutex = 0
          /\ q' = Append(q, nsub + 1) /\ nsub' = nsub + 1 /\ opc' = "notify"
          /\ UNCHANGED <<mutex, stop, pc, cur, waiting, finished>>
Notify == /\ opc = "notify" /\ opc' = "idle"
          /\ IF waiting = {} THEN UNCHANGED waiting ELSE \E w \in waiting : waiting' = waiting \ {w}
          /\ UNCHANGED <<mutex, stop, q, pc, cur, nsub, finished>>
Stop == /\ opc = "idle" /\ nsub = T /\ mutex = 0 /\ stop' = TRUE /\ opc' = "notifyall"
        /\ UNCHANGED <<mutex, q, pc, cur, waiting, nsub, finished>>
NotifyAll == /\ opc = "notifyall" /\ waiting' = {} /\ opc' = "join"
             /\ UNCHANGED <<mutex, stop, q, pc, cur, nsub, finished>>
Join == /\ opc = "join" /\ \A w \in Ws : pc[w] = "exit" /\ opc' = "gone"
        /\ UNCHANGED <<mutex, stop, q, pc, cur, waiting, nsub, finished>>
Worker(w) == Lock(w) \/ Test(w) \/ Woken(w) \/ Take(w) \/ Finish(w)
Owner == Submit \/ Notify \/ Stop \/ NotifyAll \/ Join
Next == Owner \/ \E w \in Ws : Worker(w) \/ Spurious(w)
Fair == /\ \A w \in Ws : WF_vars(Worker(w)) /\ SF_vars(Lock(w))
        /\ WF_vars(Owner) /\ SF_vars(Submit) /\ SF_vars(Stop)
Spec == Init /\ [][Next]_vars /\ Fair

(* --------------------------------------------------------------- checks *)
Range(s) == {s[k] : k \in 1..Len(s)}
InRun == {cur[w] : w \in {x \in Ws : cur[x] # 0}}
Once == /\ \A v, w \in Ws : v # w /\ cur[v] # 0 => cur[v] # cur[w]
        /\ (Range(q) \cap InRun) = {} /\ (finished \cap (InRun \cup Range(q))) = {}
        /\ finished \cup InRun \cup Range(q) = 1..nsub
Fifo == \A t \in Range(q) : \A u \in InRun \cup finished : u < t
Abs == INSTANCE PoolAbs WITH queue <- q, running <- InRun, done <- finished, submitted <- nsub
Refines == Abs!Spec
Terminates == <>(opc = "gone" /\ finished = 1..T)
=============================================================================
