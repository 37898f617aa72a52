------------------------------ MODULE VarSets ------------------------------
(* Variable sets, environments and variable identities.  NS set registers    *)
(* and NE environment registers over variables 1..NV (0 is the dummy one).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS NS, NE, NV, L, Random, Seed0, Runs
VARIABLES S, En, hist, rng
vars == <<S, En, hist, rng>>

Ss == 1..NS  Es == 1..NE  Vs == 1..NV
None == -99999
B(x) == IF x THEN 1 ELSE 0
Succ(v) == 1 + (v % NV)
Mask(s) == LET f[k \in 0..NV] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF k \in s THEN 2 ^ (k - 1) ELSE 0) IN f[NV]
Dom(e) == {v \in Vs : e[v] # None}

Rec(op, res, SS, EE) ==
  hist' = Append(hist, op \o <<res>> \o [i \in Ss |-> Mask(SS[i])] \o
                 [k \in 1..(NE * NV) |-> EE[1 + ((k - 1) \div NV)][1 + ((k - 1) % NV)]])
ToSet(i, s, op, res) == S' = [S EXCEPT ![i] = s] /\ UNCHANGED En /\ Rec(op, res, S', En)
Look(op, res) == UNCHANGED <<S, En>> /\ Rec(op, res, S, En)
ToEnv(i, e, op, res) == En' = [En EXCEPT ![i] = e] /\ UNCHANGED S /\ Rec(op, res, S, En')

(* op = <<name, a, b, c>> *)
Do(op) ==
  LET nm == op[1]  a == op[2]  b == op[3]  c == op[4] IN
  /\ CASE nm = "sinsert" -> ToSet(a, S[a] \cup {b}, op, 0)
       [] nm = "serase" -> ToSet(a, S[a] \ {b}, op, B(b \in S[a]))
       [] nm = "sinserts" -> ToSet(a, S[a] \cup S[b], op, 0)        \* also by iterators
       [] nm = "serases" -> ToSet(a, S[a] \ S[b], op, Cardinality(S[a] \cap S[b]))
       [] nm = "plus" -> ToSet(c, S[a] \cup S[b], op, 0)
       [] nm = "minus" -> ToSet(c, S[a] \ S[b], op, 0)
       [] nm = "pluseq" -> ToSet(a, S[a] \cup S[b], op, 0)
       [] nm = "minuseq" -> ToSet(a, S[a] \ S[b], op, 0)
       [] nm = "plusv" -> ToSet(c, S[a] \cup {b}, op, 0)
       [] nm = "minusv" -> ToSet(c, S[a] \ {b}, op, 0)
       [] nm = "inter" -> ToSet(c, S[a] \cap S[b], op, 0)
       [] nm = "scopy" -> ToSet(a, S[b], op, 0)
       [] nm = "smove" -> IF a = b THEN Look(op, 0)
                          ELSE S' = [S EXCEPT ![a] = S[b], ![b] = {}] /\ UNCHANGED En /\ Rec(op, 0, S', En)
       [] nm = "domain" -> ToSet(a, Dom(En[b]), op, 0)
       [] nm = "include" -> Look(op, B(b \in S[a]))
       [] nm = "rel" -> Look(op, B(S[a] \subseteq S[b]) + 2 * B(S[b] \subseteq S[a]) +
                                 4 * B(S[a] \subseteq S[b] /\ S[a] # S[b]) + 8 * B(S[b] \subseteq S[a] /\ S[a] # S[b]) +
                                 16 * B(S[a] = S[b]) + 32 * B(S[a] \cap S[b] # {}))
       (* the first value inserted for a variable stays; a dummy variable is  *)
       (* refused (result -1) without effect                                  *)
       [] nm = "einsert" -> IF b = 0 THEN Look(op, -1)
                            ELSE ToEnv(a, IF En[a][b] = None THEN [En[a] EXCEPT ![b] = c] ELSE En[a], op, 0)
       [] nm = "einsertnan" -> Look(op, -1)
       [] nm = "eset" -> IF b = 0 THEN Look(op, -1) ELSE ToEnv(a, [En[a] EXCEPT ![b] = c], op, 0)
       [] nm = "eget" -> IF b = 0 \/ En[a][b] = None THEN Look(op, -1) ELSE Look(op, En[a][b])
       [] nm = "etouch" -> IF b = 0 THEN Look(op, -1)         \* e[v] adds 0 for a new variable
                           ELSE ToEnv(a, IF En[a][b] = None THEN [En[a] EXCEPT ![b] = 0] ELSE En[a], op, 0)
       (* from a list that names b, the next variable and b again, with the   *)
       (* values c, c + 1 and c + 3; from a list of variables (all 0)         *)
       [] nm = "einit" -> IF b = 0 THEN Look(op, -1)
                          ELSE ToEnv(a, [v \in Vs |-> IF v = b THEN c ELSE IF v = Succ(b) THEN c + 1 ELSE None], op, 0)
       [] nm = "evars" -> IF b = 0 THEN Look(op, -1)
                          ELSE ToEnv(a, [v \in Vs |-> IF v \in {b, Succ(b)} THEN 0 ELSE None], op, 0)
       [] nm = "slist" -> ToSet(a, {b, Succ(b)}, op, 0)
       [] nm = "ecopy" -> ToEnv(a, En[b], op, 0)
       [] nm = "emove" -> IF a = b THEN Look(op, 0)
                          ELSE En' = [En EXCEPT ![a] = En[b], ![b] = [v \in Vs |-> None]] /\ UNCHANGED S /\ Rec(op, 0, S, En')
       [] nm = "edom" -> Look(op, Mask(Dom(En[a])))
       [] nm = "esize" -> Look(op, Cardinality(Dom(En[a])))
  /\ rng' = IF Random THEN RngSkip(rng, 6) ELSE rng

SNames == <<"sinsert", "sinsert", "sinsert", "serase", "sinserts", "serases", "plus", "minus", "pluseq", "minuseq", "plusv",
            "minusv", "inter", "inter", "scopy", "smove", "slist", "include", "rel", "rel", "rel">>
ENames == <<"einsert", "einsert", "eset", "eget", "etouch", "ecopy", "emove", "edom", "esize", "einsertnan", "domain", "einit", "evars">>
Pick ==
  IF Draw(rng, 1, 3) < 2
  THEN LET n == DrawSeq(rng, 2, SNames)
           v == n \in {"sinsert", "serase", "plusv", "minusv", "include", "slist"}
       IN <<n, 1 + Draw(rng, 3, NS), 1 + Draw(rng, 4, IF v THEN NV ELSE NS), 1 + Draw(rng, 5, NS)>>
  ELSE LET n == DrawSeq(rng, 2, ENames) IN
       CASE n = "domain" -> <<n, 1 + Draw(rng, 3, NS), 1 + Draw(rng, 4, NE), 1>>
         [] n \in {"ecopy", "emove"} -> <<n, 1 + Draw(rng, 3, NE), 1 + Draw(rng, 4, NE), 1>>
         [] OTHER -> <<n, 1 + Draw(rng, 3, NE), IF Draw(rng, 4, 12) = 0 THEN 0 ELSE 1 + Draw(rng, 5, NV), Draw(rng, 6, 5) - 2>>
AllOps ==
  {<<n, a, b, 1>> : n \in {"sinsert", "serase"}, a \in Ss, b \in Vs} \cup
  {<<n, a, b, c>> : n \in {"plus", "minus", "inter"}, a \in Ss, b \in Ss, c \in Ss} \cup
  {<<n, a, b, 1>> : n \in {"sinserts", "serases", "pluseq", "minuseq", "rel"}, a \in Ss, b \in Ss}

Init == /\ S = [i \in Ss |-> {}]
        /\ En = [i \in Es |-> [v \in Vs |-> None]]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1021 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars
(* every step changes the register it names and no other *)
Frame == [][\A i \in Ss : \A e \in Es : (Cardinality({k \in Ss : S'[k] # S[k]}) <= 2) /\ (S' = S \/ En' = En)]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
