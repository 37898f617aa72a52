------------------------------- MODULE Scoped -------------------------------
(* Backtrackable containers (ScopedVector, ScopedUnorderedMap,               *)
(* ScopedUnorderedSet).  The abstract machine keeps a stack of snapshots;    *)
(* the concrete one keeps the undo log the code keeps.  UndoLogIsExact says  *)
(* that the concrete machine refines the abstract one.  Every behaviour is   *)
(* recorded in hist with the observation the code must show after each step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS Kind,      \* "vec" | "map" | "set"
          NI,        \* number of container objects
          NK, NV,    \* keys 1..NK, values 1..NV
          L,         \* length of behaviours
          Random,    \* TRUE: nondeterminism resolved by rng
          Seed0, Runs

VARIABLES obj,       \* [1..NI -> [cur, log, marks]]   the code's state
          snap,      \* [1..NI -> Seq(abstract value)] ghost: snapshots
          hist, rng
vars == <<obj, snap, hist, rng>>

Keys == 1..NK
Vals == 1..NV
Objs == 1..NI
Absent == 0
Empty == IF Kind = "vec" THEN <<>> ELSE [k \in Keys |-> Absent]
Fresh == [cur |-> Empty, log |-> <<>>, marks |-> <<>>]

Size(c) == IF Kind = "vec" THEN Len(c) ELSE Cardinality({k \in Keys : c[k] # Absent})

(* undo the log of o down to n entries *)
RECURSIVE Undo(_, _, _)
Undo(c, log, n) ==
  IF Len(log) <= n THEN c
  ELSE LET a == log[Len(log)] IN
       Undo([c EXCEPT ![a[2]] = IF a[1] = "INSERT" THEN Absent ELSE a[3]],
            SubSeq(log, 1, Len(log) - 1), n)

Insert(o, k, v) ==
  CASE Kind = "vec" -> [o EXCEPT !.cur = Append(@, v)]
    [] Kind = "map" ->
         IF o.cur[k] = Absent
         THEN [o EXCEPT !.cur[k] = v, !.log = Append(@, <<"INSERT", k, v>>)]
         ELSE [o EXCEPT !.cur[k] = v, !.log = Append(@, <<"UPDATE", k, o.cur[k]>>)]
    [] Kind = "set" ->
         IF o.cur[k] = Absent
         THEN [o EXCEPT !.cur[k] = 1, !.log = Append(@, <<"INSERT", k, 1>>)]
         ELSE o
Push(o) == [o EXCEPT !.marks = Append(@, IF Kind = "vec" THEN Len(o.cur) ELSE Len(o.log))]
Pop(o) ==
  LET n == o.marks[Len(o.marks)]
      m == SubSeq(o.marks, 1, Len(o.marks) - 1)
  IN IF Kind = "vec"
     THEN [cur |-> SubSeq(o.cur, 1, n), log |-> <<>>, marks |-> m]
     ELSE [cur |-> Undo(o.cur, o.log, n), log |-> SubSeq(o.log, 1, n), marks |-> m]

(* what the harness must observe of object i after the step *)
Obs(o) == o.cur

Record(op, res, o, p) == hist' = Append(hist, <<op, res, Obs(o), p>>)

Restore(s) == SubSeq(s, 1, Len(s) - 1)

(* one action per public operation; op = <<name, i, k, v>> *)
Do(op) ==
  LET nm == op[1]  i == op[2]  k == op[3]  v == op[4]  o == obj[i] IN
  /\ rng' = IF Random THEN RngSkip(rng, 7) ELSE rng
  /\ \/ /\ nm = "insert"
        /\ obj' = [obj EXCEPT ![i] = Insert(o, k, v)]
        /\ UNCHANGED snap
        /\ Record(op, 0, obj'[i], i)
     \/ /\ nm = "push"
        /\ obj' = [obj EXCEPT ![i] = Push(o)]
        /\ snap' = [snap EXCEPT ![i] = Append(@, o.cur)]
        /\ Record(op, 0, obj'[i], i)
     \/ /\ nm = "pop" /\ o.marks # <<>>
        /\ obj' = [obj EXCEPT ![i] = Pop(o)]
        /\ snap' = [snap EXCEPT ![i] = Restore(@)]
        /\ Record(op, IF Kind = "vec" THEN Len(o.cur) - Len(obj'[i].cur) ELSE 0, obj'[i], i)
     \/ /\ nm = "pop" /\ o.marks = <<>>          \* refused, nothing changes
        /\ UNCHANGED <<obj, snap>>
        /\ Record(op, -1, o, i)
     \/ /\ nm = "clear" /\ Kind # "vec"
        /\ obj' = [obj EXCEPT ![i] = Fresh]
        /\ snap' = [snap EXCEPT ![i] = <<>>]
        /\ Record(op, 0, obj'[i], i)
     \/ /\ nm = "set" /\ Kind = "vec" /\ k <= Len(o.cur)  \* v[k] = x is not undone
        /\ obj' = [obj EXCEPT ![i].cur[k] = v]
        /\ snap' = [snap EXCEPT ![i] =
             [j \in 1..Len(@) |-> IF k <= Len(@[j]) THEN [@[j] EXCEPT ![k] = v] ELSE @[j]]]
        /\ Record(op, 0, obj'[i], i)
     \/ /\ nm = "copy" /\ k \in Objs /\ k # i             \* i := copy of k
        /\ obj' = [obj EXCEPT ![i] = obj[k]]
        /\ snap' = [snap EXCEPT ![i] = snap[k]]
        /\ Record(op, 0, obj'[i], i)
     \/ /\ nm = "move" /\ k \in Objs /\ k # i             \* i := move(k); k is re-created
        /\ obj' = [obj EXCEPT ![i] = obj[k], ![k] = Fresh]
        /\ snap' = [snap EXCEPT ![i] = snap[k], ![k] = <<>>]
        /\ Record(op, 0, obj'[i], i)

InsertOps == {<<"insert", i, k, v>> : i \in Objs,
                k \in (IF Kind = "vec" THEN {1} ELSE Keys),
                v \in (IF Kind = "set" THEN {1} ELSE Vals)}
OtherOps == {<<n, i, 1, 1>> : n \in {"push", "pop", "clear"}, i \in Objs}
AllOps == InsertOps \cup OtherOps

Weighted == << "insert", "insert", "insert", "insert", "push", "push", "pop", "pop",
               "insert", "push", "set", "copy", "move", "clear" >>
PickName ==
  LET w == DrawSeq(rng, 1, Weighted)
  IN IF w = "clear" /\ (Kind = "vec" \/ Draw(rng, 6, 3) > 0) THEN "pop"
     ELSE IF w = "set" /\ Kind # "vec" THEN "insert" ELSE w
Pick ==
  LET n == PickName
      i == 1 + Draw(rng, 2, NI)
      k == 1 + Draw(rng, 3, NK)
      v == 1 + Draw(rng, 4, NV)
  IN CASE n \in {"copy", "move"} ->
            IF NI = 1 THEN <<"push", i, 1, 1>> ELSE <<n, i, 1 + (i % NI), 1>>
       [] n = "set" -> IF Len(obj[i].cur) = 0 THEN <<"insert", i, 1, v>>
                       ELSE <<"set", i, 1 + Draw(rng, 5, Len(obj[i].cur)), v>>
       [] n = "insert" -> <<n, i, k, IF Kind = "set" THEN 1 ELSE v>>
       [] OTHER -> <<n, i, 1, 1>>

Init == /\ obj = [i \in Objs |-> Fresh]
        /\ snap = [i \in Objs |-> <<>>]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1009 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- checks *)
RollBackTo(o, j) == IF Kind = "vec" THEN SubSeq(o.cur, 1, o.marks[j])
                    ELSE Undo(o.cur, o.log, o.marks[j])
UndoLogIsExact ==
  \A i \in Objs : /\ Len(snap[i]) = Len(obj[i].marks)
                  /\ \A j \in 1..Len(snap[i]) : RollBackTo(obj[i], j) = snap[i][j]
MarksMonotone ==
  \A i \in Objs : \A j \in 1..Len(obj[i].marks) - 1 : obj[i].marks[j] <= obj[i].marks[j + 1]
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
