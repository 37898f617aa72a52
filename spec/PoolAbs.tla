------------------------------ MODULE PoolAbs ------------------------------
(* The pool seen from outside, without the urgency of Pool.tla: what the     *)
(* algorithm (PoolImpl) must refine.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, T
VARIABLES queue, running, done, submitted
v == <<queue, running, done, submitted>>
Init == queue = <<>> /\ running = {} /\ done = {} /\ submitted = 0
Submit == /\ submitted < T /\ submitted' = submitted + 1
          /\ queue' = Append(queue, submitted + 1) /\ UNCHANGED <<running, done>>
Start == /\ queue # <<>> /\ Cardinality(running) < W
         /\ running' = running \cup {Head(queue)} /\ queue' = Tail(queue) /\ UNCHANGED <<done, submitted>>
End == \E t \in running : running' = running \ {t} /\ done' = done \cup {t} /\ UNCHANGED <<queue, submitted>>
Next == Submit \/ Start \/ End
Spec == Init /\ [][Next]_v
=============================================================================
