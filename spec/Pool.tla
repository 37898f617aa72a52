-------------------------------- MODULE Pool -------------------------------
(* A thread pool seen from outside: a task starts as soon as a worker is     *)
(* free, in the order of submission; the environment decides when a running  *)
(* task ends.  A task returns a value, throws, or submits another task when  *)
(* it ends.  Destroying the pool refuses further tasks and completes when    *)
(* all the accepted ones have ended.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS MaxW, MaxT, L, Random, Seed0, Runs
VARIABLES n,        \* workers of the live pool, 0: no pool
          stopping, queue, running, done, kind, refused, hist, rng
vars == <<n, stopping, queue, running, done, kind, refused, hist, rng>>

RECURSIVE Dispatch(_, _)
Dispatch(q, r) == IF q = <<>> \/ Cardinality(r) >= n' THEN <<q, r>>
                  ELSE Dispatch(Tail(q), r \cup {Head(q)})
Sched(q, r) == LET d == Dispatch(q, r) IN queue' = d[1] /\ running' = d[2]
NT == Len(kind)
Bits(s) == LET f[k \in 0..30] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF k \in s THEN 2 ^ (k - 1) ELSE 0) IN f[30]

(* op = <<name, i, v>> *)
Do(op) ==
  LET nm == op[1]  i == op[2]  v == op[3] IN
  /\ CASE nm = "new" -> /\ n' = i /\ stopping' = FALSE /\ Sched(<<>>, {})
                        /\ UNCHANGED <<done, kind, refused>>
       [] nm = "enq" ->
            /\ UNCHANGED <<n, stopping, done>>
            /\ kind' = Append(kind, v)
            /\ IF stopping THEN refused' = refused \cup {NT + 1} /\ UNCHANGED <<queue, running>>
               ELSE UNCHANGED refused /\ Sched(Append(queue, NT + 1), running)
       [] nm = "release" ->
            /\ done' = done \cup {i}
            /\ LET last == stopping /\ running = {i} /\ queue = <<>>
                   sp == kind[i] = 3 IN
               /\ n' = IF last THEN 0 ELSE n
               /\ stopping' = IF last THEN FALSE ELSE stopping
               /\ kind' = IF sp THEN Append(kind, 1) ELSE kind
               /\ refused' = IF sp /\ stopping THEN refused \cup {NT + 1} ELSE refused
               /\ Sched(IF sp /\ ~stopping THEN Append(queue, NT + 1) ELSE queue, running \ {i})
       (* a crowd of short tasks from several submitters at once: they are    *)
       (* all done when the pool is quiet again                              *)
       [] nm = "crowd" -> UNCHANGED <<n, stopping, queue, running, done, kind, refused>>
       [] nm = "destroy" ->
            /\ LET idle == running = {} IN n' = (IF idle THEN 0 ELSE n) /\ stopping' = ~idle
            /\ UNCHANGED <<queue, running, done, kind, refused>>
  /\ hist' = Append(hist, op \o <<n', IF stopping' THEN 1 ELSE 0, Bits(running'), Bits(done'), Bits(refused')>>)
  /\ rng' = IF Random THEN RngSkip(rng, 6) ELSE rng

Ops ==
  (IF n = 0 THEN {<<"new", w, 0>> : w \in 1..MaxW} ELSE {}) \cup
  (IF n > 0 /\ NT < MaxT - 1 THEN {<<"enq", 0, k>> : k \in 1..3} ELSE {}) \cup
  {<<"release", t, 0>> : t \in running} \cup
  (IF n > 0 /\ ~stopping /\ Cardinality(running) < n THEN {<<"crowd", c, 0>> : c \in {2, 5}} ELSE {}) \cup
  (IF n > 0 /\ ~stopping THEN {<<"destroy", 0, 0>>} ELSE {})
Rare == {o \in Ops : o[1] \in {"destroy", "crowd"}}
Choices == IF Draw(rng, 3, 8) > 0 /\ Ops # Rare THEN Ops \ Rare ELSE Ops
RECURSIVE Nth(_, _)
Nth(s, k) == LET x == CHOOSE y \in s : TRUE IN IF k = 0 THEN x ELSE Nth(s \ {x}, k - 1)
Pick == Nth(Choices, Draw(rng, 1, Cardinality(Choices)))

Init == /\ n = 0 /\ stopping = FALSE /\ queue = <<>> /\ running = {} /\ done = {} /\ kind = <<>>
        /\ refused = {} /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1033 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L /\ Ops # {}
        /\ IF Random THEN Do(Pick) ELSE \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Range(q) == {q[k] : k \in 1..Len(q)}
Conservation ==   \* every submitted task is in exactly one place
  \A t \in 1..NT : Cardinality({p \in {1, 2, 3, 4} :
     \/ (p = 1 /\ t \in Range(queue)) \/ (p = 2 /\ t \in running)
     \/ (p = 3 /\ t \in done) \/ (p = 4 /\ t \in refused)}) = 1
WorkConserving == queue # <<>> => Cardinality(running) = n
Fifo == \A t \in Range(queue) : \A u \in running : u < t
Emit == (Len(hist) = L \/ Ops = {}) => PrintT("@@" \o ToJson(hist))
=============================================================================
