------------------------------ MODULE Options ------------------------------
(* Options with sources.  An option object remembers every setting made     *)
(* since it was created (sets); its value is defined from that history: the  *)
(* latest setting of the strongest source that made one.  impl is the state  *)
(* the code keeps (value and strongest source); ImplRefines relates them.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS NO, NV, L, Random, Seed0, Runs
VARIABLES sets, impl, hist, rng
vars == <<sets, impl, hist, rng>>

Objs == 1..NO
Default == 0  File == 1  CmdLine == 2  Code == 3

Strongest(s) == CHOOSE m \in {s[k][1] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k][1] <= m
RECURSIVE Latest(_, _, _)
Latest(s, src, k) == IF s[k][1] = src THEN s[k][2] ELSE Latest(s, src, k - 1)
Value(s) == Latest(s, Strongest(s), Len(s))

ImplSet(p, src, v) == IF src >= p[2] THEN <<v, src>> ELSE p

Obs(ss) == [i \in Objs |-> Value(ss[i])]
Do(op) ==
  LET nm == op[1]  i == op[2]  j == op[3]  v == op[4] IN
  /\ CASE nm \in {"file", "cmd", "code", "codemove"} ->
            LET src == IF nm = "file" THEN File ELSE IF nm = "cmd" THEN CmdLine ELSE Code IN
            /\ sets' = [sets EXCEPT ![i] = Append(@, <<src, v>>)]
            /\ impl' = [impl EXCEPT ![i] = ImplSet(@, src, v)]
       [] nm = "new" -> /\ sets' = [sets EXCEPT ![i] = << <<Default, v>> >>]
                        /\ impl' = [impl EXCEPT ![i] = <<v, Default>>]
       [] nm \in {"copy", "copynew"} -> /\ sets' = [sets EXCEPT ![i] = sets[j]]
                                        /\ impl' = [impl EXCEPT ![i] = impl[j]]
       [] nm \in {"move", "movenew"} ->       \* j is created again
            IF i = j THEN UNCHANGED <<sets, impl>>
            ELSE /\ sets' = [sets EXCEPT ![i] = sets[j], ![j] = << <<Default, v>> >>]
                 /\ impl' = [impl EXCEPT ![i] = impl[j], ![j] = <<v, Default>>]
  /\ hist' = Append(hist, op \o Obs(sets'))
  /\ rng' = IF Random THEN RngSkip(rng, 6) ELSE rng

Names == <<"file", "cmd", "code", "codemove", "file", "cmd", "file", "cmd", "new", "copy", "copynew", "move", "movenew">>
AllOps == {<<Names[k], i, j, v>> : k \in 1..4 \cup {9}, i \in Objs, j \in {1}, v \in 1..NV} \cup
          {<<Names[k], i, j, 1>> : k \in 10..13, i \in Objs, j \in Objs}
Pick == <<DrawSeq(rng, 1, Names), 1 + Draw(rng, 2, NO), 1 + Draw(rng, 3, NO), 1 + Draw(rng, 4, NV)>>

Init == /\ sets = [i \in Objs |-> << <<Default, 1>> >>]
        /\ impl = [i \in Objs |-> <<1, Default>>]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1013 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars

ImplRefines == \A i \in Objs : impl[i] = <<Value(sets[i]), Strongest(sets[i])>>
(* a weaker source never changes the value *)
Precedence == [][\A i \in Objs : Strongest(sets'[i]) = Strongest(sets[i]) /\ Len(sets'[i]) = Len(sets[i]) + 1 /\
                   SubSeq(sets'[i], 1, Len(sets[i])) = sets[i] /\ sets'[i][Len(sets'[i])][1] < Strongest(sets[i])
                   => Value(sets'[i]) = Value(sets[i])]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
