------------------------------ MODULE Timers -------------------------------
(* Timers and timer guards against a clock the environment advances.        *)
(* A timer is specified by the log of the intervals in which it ran since    *)
(* its last start (spans); impl is the accumulator the code keeps.           *)
EXTENDS Integers, Sequences, TLC, Json, Rng

CONSTANTS NT, L, MaxTick, MaxGuards, Random, Seed0, Runs
VARIABLES now, tm, impl, guards, hist, rng
vars == <<now, tm, impl, guards, hist, rng>>

Ts == 1..NT
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (s[1][2] - s[1][1]) + Sum(Tail(s))
Elapsed(t, n) == Sum(t.spans) + IF t.on THEN n - t.since ELSE 0

Start(t) == [spans |-> <<>>, on |-> TRUE, since |-> now]
Pause(t) == IF t.on THEN [spans |-> Append(t.spans, <<t.since, now>>), on |-> FALSE, since |-> now] ELSE t
Resume(t) == IF t.on THEN t ELSE [t EXCEPT !.on = TRUE, !.since = now]

IStart(p) == <<TRUE, now, 0>>
IPause(p) == IF p[1] THEN <<FALSE, p[2], p[3] + (now - p[2])>> ELSE p
IResume(p) == IF p[1] THEN p ELSE <<TRUE, now, p[3]>>

On(i, f(_), g(_)) == /\ tm' = [tm EXCEPT ![i] = f(@)]
                     /\ impl' = [impl EXCEPT ![i] = g(@)]
Nothing == UNCHANGED <<tm, impl>>
B(x) == IF x THEN 1 ELSE 0
Top == Len(guards)
(* op = <<name, i, a, b>>; guards are scoped objects: last in, first out *)
Do(op) ==
  LET nm == op[1]  i == op[2]  a == op[3]  b == op[4] IN
  /\ CASE nm = "tick" -> now' = now + i /\ Nothing /\ UNCHANGED guards
       [] nm = "start" -> On(i, Start, IStart) /\ UNCHANGED <<now, guards>>
       [] nm = "pause" -> On(i, Pause, IPause) /\ UNCHANGED <<now, guards>>
       [] nm = "resume" -> On(i, Resume, IResume) /\ UNCHANGED <<now, guards>>
       [] nm = "guard" -> /\ guards' = Append(guards, <<i, a>>)
                          /\ UNCHANGED now
                          /\ IF a = 1 /\ b = 1 THEN On(i, Resume, IResume) ELSE Nothing
       [] nm = "gpause" -> /\ UNCHANGED <<now, guards>>
                           /\ IF guards[i][2] = 1 THEN On(guards[i][1], Pause, IPause) ELSE Nothing
       [] nm = "gresume" -> /\ UNCHANGED <<now, guards>>
                            /\ IF guards[i][2] = 1 THEN On(guards[i][1], Resume, IResume) ELSE Nothing
       [] nm = "gend" -> /\ guards' = SubSeq(guards, 1, Top - 1)
                         /\ UNCHANGED now
                         /\ IF guards[Top][2] = 1 THEN On(guards[Top][1], Pause, IPause) ELSE Nothing
  /\ hist' = Append(hist, op \o [k \in 1..2 * NT |-> IF k <= NT THEN Elapsed(tm'[k], now') ELSE B(tm'[k - NT].on)])
  /\ rng' = IF Random THEN RngSkip(rng, 6) ELSE rng

GuardOps == IF Top = 0 THEN {} ELSE {<<n, k, 0, 0>> : n \in {"gpause", "gresume"}, k \in 1..Top} \cup {<<"gend", Top, 0, 0>>}
AllOps == {<<"tick", d, 0, 0>> : d \in 1..MaxTick} \cup
          {<<n, i, 0, 0>> : n \in {"start", "pause", "resume"}, i \in Ts} \cup
          (IF Top < MaxGuards THEN {<<"guard", i, a, b>> : i \in Ts, a \in {0, 1}, b \in {0, 1}} ELSE {}) \cup GuardOps
Names == <<"tick", "tick", "tick", "start", "pause", "resume", "pause", "resume", "guard", "guard", "gpause", "gresume", "gend", "gend">>
Pick ==
  LET n == DrawSeq(rng, 1, Names)
      i == 1 + Draw(rng, 2, NT)
  IN CASE n = "tick" -> <<n, 1 + Draw(rng, 3, MaxTick), 0, 0>>
       [] n = "guard" -> IF Top < MaxGuards THEN <<n, i, IF Draw(rng, 4, 4) = 0 THEN 0 ELSE 1, Draw(rng, 5, 2)>> ELSE <<"tick", 1, 0, 0>>
       [] n \in {"gpause", "gresume"} -> IF Top = 0 THEN <<"tick", 1, 0, 0>> ELSE <<n, 1 + Draw(rng, 3, Top), 0, 0>>
       [] n = "gend" -> IF Top = 0 THEN <<"tick", 2, 0, 0>> ELSE <<n, Top, 0, 0>>
       [] OTHER -> <<n, i, 0, 0>>

Init == /\ now = 0
        /\ tm = [i \in Ts |-> [spans |-> <<>>, on |-> FALSE, since |-> 0]]
        /\ impl = [i \in Ts |-> <<FALSE, 0, 0>>]
        /\ guards = <<>>
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1019 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars

ImplRefines == \A i \in Ts : /\ impl[i][1] = tm[i].on
                             /\ Elapsed(tm[i], now) = impl[i][3] + IF impl[i][1] THEN now - impl[i][2] ELSE 0
(* time passes for a timer exactly when it runs *)
OnlyTicks == [][\A i \in Ts : LET d == Elapsed(tm'[i], now') - Elapsed(tm[i], now) IN
                  IF now' > now THEN d = (IF tm[i].on THEN now' - now ELSE 0)
                  ELSE d = 0 \/ (Elapsed(tm'[i], now') = 0 /\ tm'[i].on)]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
