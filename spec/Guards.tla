------------------------------- MODULE Guards ------------------------------
(* Scoped guards for the rounding mode, the precision of NO output streams   *)
(* and the handlers of NG signals.  saved is the stack of live guards.       *)
(* Restoration: when a guard ends, the setting is the one found at its       *)
(* construction, whatever was set in between.                                *)
(* A signal's setting is handler + 4 * (0: plain, 1: with flags and a mask   *)
(* of its own, 2: as a guard installs it).                                   *)
EXTENDS Integers, Sequences, TLC, Json, Rng

CONSTANTS NO, NG, L, MaxDepth, Random, Seed0, Runs
VARIABLES rnd, prec, hdl, flag, stack, hist, rng
vars == <<rnd, prec, hdl, flag, stack, hist, rng>>

Obs == <<rnd>> \o prec \o hdl \o flag
Do(op) ==
  LET nm == op[1]  i == op[2]  v == op[3]  top == Len(stack) IN
  /\ CASE nm = "ground" -> rnd' = v /\ stack' = Append(stack, <<"round", 0, rnd>>) /\ UNCHANGED <<prec, hdl, flag>>
       [] nm = "gprec" -> prec' = [prec EXCEPT ![i] = v] /\ stack' = Append(stack, <<"prec", i, prec[i]>>) /\ UNCHANGED <<rnd, hdl, flag>>
       [] nm = "gsig" -> hdl' = [hdl EXCEPT ![i] = 8 + v] /\ stack' = Append(stack, <<"sig", i, hdl[i]>>) /\ UNCHANGED <<rnd, prec, flag>>
       [] nm = "setround" -> rnd' = v /\ UNCHANGED <<prec, hdl, flag, stack>>
       [] nm = "setprec" -> prec' = [prec EXCEPT ![i] = v] /\ UNCHANGED <<rnd, hdl, flag, stack>>
       [] nm = "setsig" -> hdl' = [hdl EXCEPT ![i] = v] /\ UNCHANGED <<rnd, prec, flag, stack>>
       [] nm = "raise" ->    \* the handler (1..3) in force runs: it raises the flag of the signal; 0 ignores
            flag' = [flag EXCEPT ![i] = IF hdl[i] % 4 = 0 THEN @ ELSE hdl[i] % 4] /\ UNCHANGED <<rnd, prec, hdl, stack>>
       [] nm \in {"end", "endthrow"} ->   \* leaving the scope of the innermost guard, normally or by an exception
            LET g == stack[top] IN
            /\ stack' = SubSeq(stack, 1, top - 1)
            /\ rnd' = IF g[1] = "round" THEN g[3] ELSE rnd
            /\ prec' = IF g[1] = "prec" THEN [prec EXCEPT ![g[2]] = g[3]] ELSE prec
            /\ hdl' = IF g[1] = "sig" THEN [hdl EXCEPT ![g[2]] = g[3]] ELSE hdl
            /\ flag' = IF g[1] = "sig" THEN [flag EXCEPT ![g[2]] = 0] ELSE flag
  /\ hist' = Append(hist, op \o Obs')
  /\ rng' = IF Random THEN RngSkip(rng, 6) ELSE rng

Names == <<"ground", "gprec", "gsig", "setround", "setprec", "setsig", "raise", "raise", "end", "end", "endthrow", "gprec">>
Mk(n, i, v) ==
  CASE n \in {"ground", "setround"} -> <<n, 0, v % 4>>
    [] n \in {"gprec", "setprec"} -> <<n, 1 + (i % NO), v>>
    [] n = "gsig" -> <<n, 1 + (i % NG), v % 4>>
    [] n = "setsig" -> <<n, 1 + (i % NG), v % 8>>
    [] n = "raise" -> <<n, 1 + (i % NG), 0>>
    [] OTHER -> <<n, 0, 0>>
Ok(o) == /\ o[1] \in {"end", "endthrow"} => stack # <<>>
         /\ o[1] \in {"ground", "gprec", "gsig"} => Len(stack) < MaxDepth
Pick == LET o == Mk(DrawSeq(rng, 1, Names), Draw(rng, 2, 12), Draw(rng, 3, 20)) IN IF Ok(o) THEN o ELSE <<"raise", 1, 0>>
AllOps == {o \in {Mk(Names[k], i, v) : k \in 1..11, i \in 0..1, v \in {1, 2, 6}} : Ok(o)}
Init == /\ rnd = 0
        /\ prec = [i \in 1..NO |-> 6]
        /\ hdl = [i \in 1..NG |-> 0]
        /\ flag = [i \in 1..NG |-> 0]
        /\ stack = <<>>
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1031 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
