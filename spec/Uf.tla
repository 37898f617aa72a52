-------------------------------- MODULE Uf --------------------------------
(* Uninterpreted functions: name(set of variables).  They have no value, so  *)
(* the registers hold linear combinations of atoms (variables 1..NV and      *)
(* uninterpreted functions) as a canonical form: what can be observed is     *)
(* which are equal, which variables occur, what a substitution makes of      *)
(* them, and the coefficient that is the derivative.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS NE, NF, NV, L, Random, Seed0, Runs
VARIABLES E, F, hist, rng
vars == <<E, F, hist, rng>>

Vs == 1..NV             \* real variables; NV + 1 .. 2 NV are Boolean ones
Bs == (NV + 1)..(2 * NV)
All == Vs \cup Bs
Names == {"f", "g"}
VarAtom(v) == <<"v", {v}>>
Uf(n, s) == <<n, s>>
(* a combination: a set of pairs <<atom, coefficient # 0>> and a constant    *)
Lin(s, k) == [s |-> s, k |-> k]
Const(k) == Lin({}, k)
At(a) == Lin({<<a, 1>>}, 0)
Atoms(l) == {p[1] : p \in l.s}
Coef(l, a) == IF a \in Atoms(l) THEN (CHOOSE p \in l.s : p[1] = a)[2] ELSE 0
NonZero(s) == {p \in s : p[2] # 0}
Comb(l, c, m) == Lin(NonZero({<<a, Coef(l, a) + c * Coef(m, a)>> : a \in Atoms(l) \cup Atoms(m)}), l.k + c * m.k)
Scale(l, c) == Comb(Const(0), c, l)
VarsL(l) == UNION {a[2] : a \in Atoms(l)}
IsUf(a) == a[1] # "v"

(* formulas: <<"T">>, <<"F">>, <<"b", v>>, <<"gt", l, r>>                    *)
True == <<"T">>
Gt(l, r) == LET d == Comb(l, -1, r) IN
            IF d.s = {} THEN (IF d.k > 0 THEN <<"T">> ELSE <<"F">>) ELSE <<"gt", l, r>>
VarsF(f) == CASE f[1] = "b" -> {f[2]} [] f[1] = "gt" -> VarsL(f[2]) \cup VarsL(f[3]) [] OTHER -> {}

(* a substitution: two real variables (0: none) and a Boolean one            *)
SubVar(v, p) == IF v = p[1] THEN VarsL(E[p[2]]) ELSE IF v = p[3] THEN VarsL(E[p[4]])
                ELSE IF v = p[5] THEN VarsF(F[p[6]]) ELSE {v}
SubAtom(a, p) ==
  IF IsUf(a) THEN At(Uf(a[1], UNION {SubVar(v, p) : v \in a[2]}))
  ELSE LET v == CHOOSE x \in a[2] : TRUE IN
       IF v = p[1] THEN E[p[2]] ELSE IF v = p[3] THEN E[p[4]] ELSE At(a)
RECURSIVE SubSet(_, _, _)
SubSet(s, p, acc) == IF s = {} THEN acc
                     ELSE LET q == CHOOSE x \in s : TRUE IN SubSet(s \ {q}, p, Comb(acc, q[2], SubAtom(q[1], p)))
SubL(l, p) == SubSet(l.s, p, Const(l.k))
SubF(f, p) == CASE f[1] = "gt" -> Gt(SubL(f[2], p), SubL(f[3], p))
                [] f[1] = "b" -> (IF f[2] = p[5] THEN F[p[6]] ELSE f)
                [] OTHER -> f
(* partial evaluation: the real variables in the mask have the value c       *)
Bits(n) == {v \in All : (n \div (2 ^ (v - 1))) % 2 = 1}
PartAtom(a, fix, c) ==
  IF IsUf(a) THEN At(Uf(a[1], a[2] \ fix))
  ELSE IF a[2] \subseteq fix THEN Const(c) ELSE At(a)
RECURSIVE PartSet(_, _, _, _)
PartSet(s, fix, c, acc) == IF s = {} THEN acc
   ELSE LET q == CHOOSE x \in s : TRUE IN PartSet(s \ {q}, fix, c, Comb(acc, q[2], PartAtom(q[1], fix, c)))
Diff(l, v) == IF \E a \in Atoms(l) : IsUf(a) /\ v \in a[2] THEN -99 ELSE Coef(l, VarAtom(v))
(* without uninterpreted functions: the value where variable v is v * c      *)
RECURSIVE SumSet(_)
SumSet(s) == IF s = {} THEN 0 ELSE LET q == CHOOSE x \in s : TRUE IN
             q[2] * (CHOOSE x \in q[1][2] : TRUE) + SumSet(s \ {q})
Value(l, c) == IF \E a \in Atoms(l) : IsUf(a) THEN -99 ELSE c * SumSet(l.s) + l.k

Mask(s) == LET f[k \in 0..(2 * NV)] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF k \in s THEN 2 ^ (k - 1) ELSE 0) IN f[2 * NV]
Class(R, n, i) == CHOOSE j \in 1..n : R[j] = R[i] /\ \A k \in 1..(j - 1) : R[k] # R[i]
Small(l) == Cardinality(l.s) <= 6 /\ l.k \in -30..30 /\ \A p \in l.s : p[2] \in -30..30

Rec(op, res, EE, FF) ==
  hist' = Append(hist, op \o <<res>> \o [i \in 1..NE |-> Mask(VarsL(EE[i]))] \o [i \in 1..NF |-> Mask(VarsF(FF[i]))]
                 \o [i \in 1..NE |-> Class(EE, NE, i)] \o [i \in 1..NF |-> Class(FF, NF, i)])
SetE(i, l, op) == LET r == IF Small(l) THEN l ELSE E[i] IN
                  E' = [E EXCEPT ![i] = r] /\ UNCHANGED F /\
                  Rec(IF Small(l) THEN op ELSE <<"nop">> \o Tail(op), 0, E', F)
SetF(i, f, op) == F' = [F EXCEPT ![i] = f] /\ UNCHANGED E /\ Rec(op, 0, E, F')
Look(op, res) == UNCHANGED <<E, F>> /\ Rec(op, res, E, F)

(* op = <<name, d, a, b, c, p1, .., p6>>                                     *)
Do(op) ==
  LET nm == op[1]  d == op[2]  a == op[3]  b == op[4]  c == op[5]
      p == <<op[6], op[7], op[8], op[9], op[10], op[11]>> IN
  /\ CASE nm = "uf" -> SetE(d, At(Uf(IF b = 1 THEN "f" ELSE "g", Bits(c))), op)
       [] nm = "var" -> SetE(d, At(VarAtom(c)), op)
       [] nm = "con" -> SetE(d, Const(c), op)
       [] nm = "add" -> SetE(d, Comb(E[a], 1, E[b]), op)
       [] nm = "sub" -> SetE(d, Comb(E[a], -1, E[b]), op)
       [] nm = "scale" -> SetE(d, Scale(E[a], c), op)
       [] nm = "copy" -> SetE(d, E[a], op)
       [] nm = "expand" -> SetE(d, E[a], op)
       [] nm = "subE" -> SetE(d, SubL(E[a], p), op)
       [] nm = "part" -> SetE(d, PartSet(E[a].s, Bits(b) \cap Vs, c, Const(E[a].k)), op)
       [] nm = "bvar" -> SetF(d, <<"b", c>>, op)
       [] nm = "gt" -> SetF(d, Gt(E[a], E[b]), op)
       [] nm = "subF" -> SetF(d, SubF(F[a], p), op)
       [] nm = "diff" -> Look(op, Diff(E[a], c))
       [] nm = "eval" -> Look(op, Value(E[a], c))
       [] nm = "poly" -> Look(op, IF \E x \in Atoms(E[a]) : IsUf(x) THEN 0 ELSE 1)
  /\ rng' = IF Random THEN RngSkip(rng, 12) ELSE rng

Prog == <<"uf", "uf", "uf", "uf", "var", "con", "add", "add", "sub", "scale", "copy", "expand", "subE", "subE", "subE", "part",
          "bvar", "gt", "gt", "subF", "diff", "diff", "eval", "poly">>
Pick ==
  LET n == DrawSeq(rng, 1, Prog)
      f == n \in {"bvar", "gt", "subF"}
      x1 == Draw(rng, 6, NV + 1)
      x2 == Draw(rng, 7, NV + 1)
  IN <<n, 1 + Draw(rng, 2, IF f THEN NF ELSE NE), 1 + Draw(rng, 3, IF n = "subF" THEN NF ELSE NE),
       IF n = "uf" THEN 1 + Draw(rng, 4, 2) ELSE IF n = "part" THEN Draw(rng, 4, 2 ^ NV) ELSE 1 + Draw(rng, 4, NE),
       CASE n = "uf" -> Draw(rng, 5, 2 ^ (2 * NV))
         [] n \in {"var", "diff"} -> 1 + Draw(rng, 5, NV)
         [] n = "bvar" -> NV + 1 + Draw(rng, 5, NV)
         [] OTHER -> Draw(rng, 5, 5) - 2,
       x1, 1 + Draw(rng, 8, NE), IF x2 = x1 THEN 0 ELSE x2, 1 + Draw(rng, 9, NE),
       IF Draw(rng, 10, 2) = 0 THEN 0 ELSE NV + 1 + Draw(rng, 11, NV), 1 + Draw(rng, 12, NF)>>
(* the exhaustive alphabet: one name, substitutions of one variable          *)
AllOps ==
  {<<"uf", d, 1, 1, c, 0, 1, 0, 1, 0, 1>> : d \in {1, 2}, c \in {1, 2 ^ NV, 1 + 2 ^ NV}} \cup
  {<<"var", d, 1, 1, 1, 0, 1, 0, 1, 0, 1>> : d \in {2}} \cup
  {<<"add", 3, 1, 2, 1, 0, 1, 0, 1, 0, 1>>, <<"gt", 1, 1, 2, 1, 0, 1, 0, 1, 0, 1>>, <<"diff", 1, 3, 1, 1, 0, 1, 0, 1, 0, 1>>} \cup
  {<<"subE", 3, a, 1, 1, x, 2, 0, 1, y, 1>> : a \in {1, 2, 3}, x \in {0, 1}, y \in {0, NV + 1}}

Init == /\ E = [i \in 1..NE |-> Const(0)]
        /\ F = [i \in 1..NF |-> True]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1021 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars
(* the canonical form has no zero coefficient and one coefficient per atom   *)
Canonical == \A i \in 1..NE : /\ \A p \in E[i].s : p[2] # 0
                              /\ Cardinality(E[i].s) = Cardinality(Atoms(E[i]))
(* substituting a variable that does not occur changes nothing               *)
Idle == [][\A i \in 1..NE : LET op == hist'[Len(hist')] IN
             (op[1] = "subE" /\ op[2] = i /\ {op[6], op[8], op[10]} \cap VarsL(E[op[3]]) = {}) => E'[i] = E[op[3]]]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
