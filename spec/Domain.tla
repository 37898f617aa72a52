------------------------------- MODULE Domain -------------------------------
(* Where evaluation is refused.  Registers hold terms (variables occur once, *)
(* so that nothing cancels); variables have values or none; an observation   *)
(* is the status of a term or formula at the present values:                 *)
(*   <<"r">>        refused: an exception, never a number or NaN             *)
(*   <<"n", p, q>>  the number p / q                                         *)
(*   <<"u">>        some finite number                                       *)
(*   <<"m">>        not decided here                                         *)
(* A variable may also have a value immediately beside -1, 0 or 1 (the next  *)
(* floating-point number), <<"e", k, s>>: beside k, on the side s.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS NV, L, Random, Seed0, Runs
VARIABLES T, val, hist, rng
vars == <<T, val, hist, rng>>

NR == 4
Vs == 1..NV
Unset == <<"r">>
Num(p, q) == <<"n", p, q>>
U == <<"u">>
R == <<"r">>
M == <<"m">>
Grid == << Num(-2, 1), Num(-33, 32), Num(-1, 1), Num(-31, 32), Num(-1, 2), Num(-1, 32), Num(0, 1), Num(1, 32), Num(1, 2),
           Num(31, 32), Num(1, 1), Num(33, 32), Num(2, 1), Num(3, 1), Unset,
           <<"e", -1, -1>>, <<"e", -1, 1>>, <<"e", 0, -1>>, <<"e", 0, 1>>, <<"e", 1, -1>>, <<"e", 1, 1>> >>
Consts == << <<1, 2>>, <<-1, 2>>, <<2, 1>>, <<-2, 1>>, <<1, 32>>, <<-1, 32>>, <<3, 1>> >>
Exps == << <<2, 1>>, <<3, 1>>, <<-1, 1>>, <<-2, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 2>>, <<1, 4>>, <<5, 2>> >>

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Mk(p, q) == IF Abs(p) > 30000 \/ Abs(q) > 30000 THEN U
            ELSE LET g == Gcd(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 IN Num(s * (p \div g), Abs(q) \div g)
IsN(v) == v[1] = "n"
IsE(v) == v[1] = "e"
Both(a, b, n) ==       \* a strict operation on two operands
  CASE a = R /\ b = R -> M                 \* equal operands may cancel
    [] a = M \/ b = M -> M
    [] a = R \/ b = R -> R
    [] (IsE(a) /\ a[2] = 0) \/ (IsE(b) /\ b[2] = 0) -> M     \* may underflow later
    [] IsN(a) /\ IsN(b) -> n
    [] OTHER -> U
Neg(v) == v[2] < 0
Add(a, b, s) == Both(a, b, IF IsN(a) /\ IsN(b) THEN Mk(a[2] * b[3] + s * b[2] * a[3], a[3] * b[3]) ELSE U)
Zero(v) == IsN(v) /\ v[2] = 0
Tiny(a) == IsE(a) /\ a[2] = 0
Mul(a, b) == IF Tiny(a) \/ Tiny(b) THEN M
             ELSE IF Zero(a) \/ Zero(b) THEN (IF IsN(a) /\ IsN(b) THEN Num(0, 1) ELSE M)
             ELSE Both(a, b, IF IsN(a) /\ IsN(b) THEN Mk(a[2] * b[2], a[3] * b[3]) ELSE U)
Div(a, b) == IF Zero(b) THEN R
             ELSE IF (b = U \/ IsE(b)) /\ a # R THEN M
             ELSE Both(a, b, IF IsN(a) /\ IsN(b) THEN Mk(a[2] * b[3], a[3] * b[2]) ELSE U)
Pow(a, e) ==           \* e: a number
  CASE a = R -> R
    [] a = M -> M
    [] a = U -> (IF e[2] = 1 /\ e[1] > 0 THEN U ELSE M)
    [] IsE(a) -> (IF e[2] # 1 /\ (a[2] < 0 \/ (a[2] = 0 /\ a[3] < 0)) THEN R ELSE IF a[2] = 0 THEN M ELSE U)
    [] Zero(a) -> (IF e[1] < 0 THEN M ELSE Num(0, 1))
    [] e[2] # 1 -> (IF Neg(a) THEN R ELSE U)
    [] e = <<2, 1>> -> Mk(a[2] * a[2], a[3] * a[3])
    [] OTHER -> U
PowT(a, b) == IF IsN(a) /\ IsN(b) /\ ~Zero(b) THEN Pow(a, <<b[2], b[3]>>) ELSE M
Fn(f, a) ==
  CASE a = R \/ a = M -> a
    [] Tiny(a) /\ f \notin {"log", "sqrt", "asin", "acos", "exp", "cos"} -> M
    [] f \in {"sin", "cos", "atan", "tanh", "exp", "sinh", "cosh"} -> (IF a = U THEN (IF f \in {"sin", "cos", "atan", "tanh"} THEN U ELSE M) ELSE U)
    [] f = "abs" -> (IF ~IsN(a) THEN U ELSE Num(Abs(a[2]), a[3]))
    [] a = U -> M
    [] IsE(a) -> (LET neg == a[2] < 0 \/ (a[2] = 0 /\ a[3] < 0)
                      out == a[2] * a[3] = 1
                  IN IF f \in {"log", "sqrt"} THEN (IF neg THEN R ELSE IF f = "sqrt" /\ Tiny(a) THEN M ELSE U)
                     ELSE IF f = "asin" /\ Tiny(a) THEN M ELSE (IF out THEN R ELSE U))
    [] f = "log" -> (IF Neg(a) THEN R ELSE IF a[2] = 0 THEN M ELSE U)
    [] f = "sqrt" -> (IF Neg(a) THEN R ELSE IF a[2] = 0 THEN Num(0, 1) ELSE U)
    [] f \in {"asin", "acos"} -> (IF Abs(a[2]) > a[3] THEN R ELSE U)
MinMax(f, a, b) == Both(a, b, IF IsN(a) /\ IsN(b)
                              THEN (IF (a[2] * b[3] < b[2] * a[3]) = (f = "min") THEN a ELSE b) ELSE U)
(* truth values: 0, 1, 2 refused, 3 not decided                              *)
Cmp(o, a, b) ==
  CASE a = R /\ b = R -> 3
    [] a = R \/ b = R -> (IF o \in {"eq", "ne"} THEN 3 ELSE 2)
    [] ~IsN(a) \/ ~IsN(b) -> 3
    [] OTHER -> LET l == a[2] * b[3]  r == b[2] * a[3]
                    t == CASE o = "lt" -> l < r [] o = "le" -> l <= r [] o = "gt" -> l > r [] o = "ge" -> l >= r
                           [] o = "eq" -> l = r [] o = "ne" -> l # r
                IN IF t THEN 1 ELSE 0
And3(x, y) == CASE x = 3 \/ y = 3 -> 3
                [] x = 2 \/ y = 2 -> (IF x = 0 \/ y = 0 THEN 3 ELSE 2)
                [] OTHER -> x * y
Not3(x) == IF x \in {0, 1} THEN 1 - x ELSE x

RECURSIVE Ev(_)
Ev(t) ==
  CASE t[1] = "v" -> val[t[2]]
    [] t[1] = "c" -> Num(t[2], t[3])
    [] t[1] = "add" -> Add(Ev(t[2]), Ev(t[3]), 1)
    [] t[1] = "sub" -> Add(Ev(t[2]), Ev(t[3]), -1)
    [] t[1] = "mul" -> Mul(Ev(t[2]), Ev(t[3]))
    [] t[1] = "div" -> Div(Ev(t[2]), Ev(t[3]))
    [] t[1] = "powc" -> Pow(Ev(t[2]), t[3])
    [] t[1] = "powt" -> PowT(Ev(t[2]), Ev(t[3]))
    [] t[1] \in {"min", "max"} -> MinMax(t[1], Ev(t[2]), Ev(t[3]))
    [] t[1] = "ite" -> (LET c == Cmp("lt", Ev(t[2]), Num(1, 2)) IN
                        CASE c = 1 -> Ev(t[3]) [] c = 0 -> Ev(t[4]) [] c = 2 -> R [] OTHER -> M)
    [] OTHER -> Fn(t[1], Ev(t[2]))
RECURSIVE VarsT(_)
VarsT(t) == CASE t[1] = "v" -> {t[2]} [] t[1] = "c" -> {}
              [] t[1] \in {"add", "sub", "mul", "div", "powt", "min", "max"} -> VarsT(t[2]) \cup VarsT(t[3])
              [] t[1] = "ite" -> VarsT(t[2]) \cup VarsT(t[3]) \cup VarsT(t[4])
              [] OTHER -> VarsT(t[2])
RECURSIVE Size(_)
Size(t) == CASE t[1] \in {"v", "c"} -> 1
             [] t[1] \in {"add", "sub", "mul", "div", "powt", "min", "max"} -> 1 + Size(t[2]) + Size(t[3])
             [] t[1] = "ite" -> 1 + Size(t[2]) + Size(t[3]) + Size(t[4])
             [] OTHER -> 1 + Size(t[2])

One == <<"c", 1, 1>>
Free == Vs \ UNION {VarsT(T[i]) : i \in 1..NR}
Look(t) == LET v == Ev(t) IN IF v[1] = "n" THEN v ELSE <<IF IsE(v) THEN "u" ELSE v[1], 0, 1>>
Rec(op, obs) == hist' = Append(hist, op \o obs)
SetT(i, t, z, op) == T' = [k \in 1..NR |-> IF k = i THEN t ELSE IF k \in z THEN One ELSE T[k]] /\ UNCHANGED val /\ Rec(op, <<"-", 0, 1>>)

Bins == <<"add", "sub", "mul", "mul", "div", "div", "min", "max", "powt">>
Uns == <<"log", "sqrt", "asin", "acos", "sqrt", "log", "abs", "sin", "exp", "atan", "tanh">>
Rels == <<"lt", "le", "gt", "ge", "eq", "ne">>
(* op = <<name, sub, d, a, b, c, k>>; the operands other than the first      *)
(* become the constant 1                                                     *)
Do(op) ==
  LET nm == op[1]  o == op[2]  d == op[3]  a == op[4]  b == op[5]  c == op[6]  k == op[7] IN
  /\ CASE nm = "ld" -> (IF Free = {} THEN SetT(d, One, {}, <<"ldc", "-", d, 0, 1, 0, 1>>)
                        ELSE LET v == CHOOSE x \in Free : \A y \in Free : x <= y IN
                             SetT(d, <<"v", v>>, {}, <<"ld", "-", d, v, 0, 0, 0>>))
       [] nm = "ldc" -> SetT(d, <<"c", Consts[k][1], Consts[k][2]>>, {}, <<"ldc", "-", d, Consts[k][1], Consts[k][2], 0, k>>)
       [] nm = "bin" -> (IF a = b \/ Size(T[a]) + Size(T[b]) > 12 THEN SetT(a, T[a], {}, <<"nop", o, d, a, b, c, k>>)
                         ELSE SetT(a, <<o, T[a], T[b]>>, {b}, op))
       [] nm = "un" -> (IF Size(T[a]) > 8 THEN SetT(a, T[a], {}, <<"nop", o, d, a, b, c, k>>) ELSE SetT(a, <<o, T[a]>>, {}, op))
       [] nm = "pow" -> (IF Size(T[a]) > 8 THEN SetT(a, T[a], {}, <<"nop", o, d, a, b, c, k>>)
                         ELSE SetT(a, <<"powc", T[a], Exps[k]>>, {}, <<"pow", "-", a, a, Exps[k][1], Exps[k][2], k>>))
       [] nm = "ite" -> (IF Cardinality({a, b, c}) # 3 \/ Size(T[a]) + Size(T[b]) + Size(T[c]) > 14 THEN SetT(a, T[a], {}, <<"nop", o, d, a, b, c, k>>)
                         ELSE SetT(a, <<"ite", T[a], T[b], T[c]>>, {b, c}, op))
       [] nm = "val" -> /\ val' = [val EXCEPT ![a] = Grid[k]] /\ UNCHANGED T
                        /\ Rec(<<"val", IF IsE(Grid[k]) THEN "next" ELSE "-", 0, a, IF Grid[k] # R THEN Grid[k][2] ELSE 0, IF Grid[k] # R THEN Grid[k][3] ELSE 0, k>>, <<"-", 0, 1>>)
       [] nm = "look" -> UNCHANGED <<T, val>> /\ Rec(op, Look(T[a]))
       [] nm = "rel" -> UNCHANGED <<T, val>> /\ Rec(op, <<"t", IF a = b THEN 3 ELSE Cmp(o, Ev(T[a]), Ev(T[b])), 1>>)
       [] nm = "and" -> UNCHANGED <<T, val>> /\     \* not (a rel 1/2) and c < 1
                        Rec(op, <<"t", IF a = c THEN 3 ELSE And3(Not3(Cmp(o, Ev(T[a]), Num(1, 2))), Cmp("lt", Ev(T[c]), Num(1, 1))), 1>>)
  /\ rng' = IF Random THEN RngSkip(rng, 9) ELSE rng

Prog == <<"ld", "ld", "ldc", "bin", "bin", "bin", "un", "un", "un", "pow", "pow", "ite", "val", "val", "val", "look", "look", "look", "look",
          "rel", "rel", "and">>
Pick ==
  LET n == DrawSeq(rng, 1, Prog)
      o == CASE n = "bin" -> DrawSeq(rng, 2, Bins) [] n = "un" -> DrawSeq(rng, 2, Uns)
             [] n \in {"rel", "and"} -> DrawSeq(rng, 2, Rels) [] OTHER -> "-"
      kk == CASE n = "ldc" -> 1 + Draw(rng, 7, Len(Consts)) [] n = "pow" -> 1 + Draw(rng, 7, Len(Exps))
              [] n = "val" -> 1 + Draw(rng, 7, Len(Grid)) [] OTHER -> Draw(rng, 7, 6)
  IN <<n, o, 1 + Draw(rng, 3, NR), IF n = "val" THEN 1 + Draw(rng, 4, NV) ELSE 1 + Draw(rng, 4, NR),
       1 + Draw(rng, 5, NR), 1 + Draw(rng, 6, NR), kk>>
(* the exhaustive alphabet: every function and exponent at every grid value, *)
(* inside every strict operation                                             *)
AllOps ==
  CASE Len(hist) = 0 -> {<<"val", "-", 0, 1, 1, 1, k>> : k \in 1..Len(Grid)}
    [] Len(hist) = 1 -> {<<"un", f, 1, 1, 1, 1, 0>> : f \in {Uns[i] : i \in 1..Len(Uns)}} \cup {<<"pow", "-", 1, 1, 1, 1, k>> : k \in 1..Len(Exps)} \cup
                        {<<"bin", "div", 2, 2, 1, 1, 0>>}
    [] Len(hist) = 2 -> {<<"bin", o, a, a, 3 - a, 1, 0>> : o \in {Bins[i] : i \in 1..8}, a \in {1, 2}} \cup {<<"un", "abs", 1, 1, 1, 1, 0>>} \cup
                        {<<"ite", "-", a, a, 1 + (a % 3), 1 + ((a + 1) % 3), 0>> : a \in 1..3}
    [] Len(hist) = 3 -> {<<"look", "-", 1, a, 1, 1, 0>> : a \in 1..3} \cup {<<n, o, 1, a, 4, 4, 0>> : n \in {"rel", "and"}, o \in {"lt", "ge"}, a \in {1, 2}}
    [] OTHER -> {}

Init == /\ T = [i \in 1..NR |-> IF i <= NV THEN <<"v", i>> ELSE One]
        /\ val = [v \in Vs |-> Grid[1 + ((3 * v + 5) % 14)]]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1021 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random THEN Do(Pick) ELSE \E op \in AllOps : Do(op)
Spec == Init /\ [][Next]_vars
(* a variable occurs in one register only                                    *)
Linear == \A i, j \in 1..NR : i # j => VarsT(T[i]) \cap VarsT(T[j]) = {}
(* a strict operation on a refused operand is never a number                 *)
Strict == \A i \in 1..NR : T[i][1] \in {"add", "sub", "div", "min", "max"} =>
            ((Ev(T[i][2]) = R \/ Ev(T[i][3]) = R) => Ev(T[i]) \in {R, M})
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
