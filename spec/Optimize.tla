------------------------------ MODULE Optimize ------------------------------
(* Minimize and Maximize.  A goal is asserted like a formula: it belongs to  *)
(* the scope it was asked for in, and confines the solutions to points that  *)
(* no point satisfying the assertions of that moment improves on in every    *)
(* objective.  As with the assertions, "delta-sat" speaks of the weakened    *)
(* goal: it is the points which satisfy the assertions with some margin that *)
(* a model must not be worse than (by more than a few delta).  An integer    *)
(* variable at the end of its domain has that margin: there is no integer    *)
(* between it and the next one.                                              *)
EXTENDS Solve
VARIABLE goal       \* <<>> or [lev |-> scope, ts |-> objectives, lv |-> assertions then,
                    \*          pristine |-> nothing asserted since]
ovars == <<scopes, fs, hist, rng, goal>>

(* satisfied with a margin: every inequality is strict *)
RECURSIVE RV(_, _, _)
Strict(o, a, b) == CASE o \in {"lt", "le"} -> a < b [] o \in {"ge", "gt"} -> a > b
                     [] o = "eq" -> FALSE [] o = "ne" -> a # b
Dual(o) == CASE o = "lt" -> "ge" [] o = "le" -> "gt" [] o = "ge" -> "lt" [] o = "gt" -> "le"
             [] o = "eq" -> "ne" [] o = "ne" -> "eq"
RV(f, pos, p) ==
  CASE f[1] = "true" -> pos
    [] f[1] = "false" -> ~pos
    [] f[1] = "b" -> (p[f[2]] = 4) = pos
    [] f[1] = "rel" -> Strict(IF pos THEN f[2] ELSE Dual(f[2]), TV(f[3], p), TV(f[4], p))
    [] f[1] = "not" -> RV(f[2], ~pos, p)
    [] f[1] = "and" -> IF pos THEN RV(f[2], TRUE, p) /\ RV(f[3], TRUE, p)
                       ELSE RV(f[2], FALSE, p) \/ RV(f[3], FALSE, p)
    [] f[1] = "or" -> IF pos THEN RV(f[2], TRUE, p) \/ RV(f[3], TRUE, p)
                      ELSE RV(f[2], FALSE, p) /\ RV(f[3], FALSE, p)
    [] f[1] = "imp" -> IF pos THEN RV(f[2], FALSE, p) \/ RV(f[3], TRUE, p)
                       ELSE RV(f[2], TRUE, p) /\ RV(f[3], FALSE, p)
    [] f[1] = "iff" -> \/ RV(f[2], TRUE, p) /\ RV(f[3], pos, p)
                       \/ RV(f[2], FALSE, p) /\ RV(f[3], ~pos, p)
(* closed: the limit of solutions is a solution (so a minimum is attained) *)
RECURSIVE Cl(_, _)
Cl(f, pos) ==
  CASE f[1] \in {"true", "false", "b"} -> TRUE
    [] f[1] = "rel" -> (IF pos THEN f[2] ELSE Dual(f[2])) \in {"le", "ge", "eq"}
    [] f[1] = "not" -> Cl(f[2], ~pos)
    [] f[1] = "imp" -> Cl(f[2], ~pos) /\ Cl(f[3], pos)
    [] f[1] = "iff" -> \A k \in {2, 3} : Cl(f[k], TRUE) /\ Cl(f[k], FALSE)
    [] OTHER -> Cl(f[2], pos) /\ Cl(f[3], pos)
Inner(v) == IF Types[v] # "R" THEN Grid(v)
            ELSE {x \in Grid(v) : 4 * DeclOf(v)[2] < x /\ x < 4 * DeclOf(v)[3]}
RECURSIVE Points(_, _)
Points(vs, ps) == IF vs = <<>> THEN ps
                  ELSE Points(Tail(vs), {[p EXCEPT ![Head(vs)] = x] : p \in ps, x \in Inner(Head(vs))})
(* the objective vectors no model may be worse than *)
Rivals ==
  LET all == {[j \in 1..Len(goal.ts) |-> TV(goal.ts[j], p)] :
              p \in {p \in Points(SetToSeq(goal.decl), {[v \in 1..(NV + 1) |-> 0]}) :
                     \A k \in 1..Len(goal.lv) : RV(fs[goal.lv[k]], TRUE, p)}} IN
  {a \in all : ~\E b \in all : b # a /\ \A j \in DOMAIN a : b[j] <= a[j]}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Goal(ts) ==
  /\ goal' = [lev |-> Top, ts |-> ts, lv |-> Live(Top), decl |-> Declared, pristine |-> TRUE]
  /\ Step(<<"goal">> \o ts)
  /\ UNCHANGED <<scopes, fs>>
Must == MustNotUnsat /\ (goal = <<>> \/ (goal.pristine /\ \A k \in 1..Len(Live(Top)) : Cl(fs[Live(Top)[k]], TRUE)))
OCheck == /\ Step(<<"check", IF Must THEN 1 ELSE 0, SetToSeq(Declared), Live(Top)>>
                  \o IF goal = <<>> THEN <<>> ELSE <<goal.ts, SeqOf(Rivals)>>)
          /\ UNCHANGED <<scopes, fs, goal>>
Changed == IF goal = <<>> THEN <<>> ELSE [goal EXCEPT !.pristine = FALSE]
GenGoal(r) == LET a == GenT(S1(r), 1 + D(r, 2)) IN
              IF D(a[2], 4) = 0 THEN LET b == GenT(S1(a[2]), 1) IN <<<<a[1], b[1]>>, b[2]>>
              ELSE <<<<a[1]>>, S1(a[2])>>
(* Chains (Conf = 1): the goal is about one variable, the assertions connect *)
(* two of them each, so that most bear on the goal only through others.      *)
Link(r) ==
  LET a == PickFrom(Nums, r)  b == PickFrom(Nums \ {a}, S1(r)) IN
  <<<<"rel", DrawSeq(r, 2, <<"le", "ge">>), <<DrawSeq(r, 3, <<"add", "sub">>), <<"v", a>>, <<"v", b>>>>,
      <<"c", 2 * (D(RngSkip(r, 4), 7) - 3)>>>>, RngSkip(r, 6)>>
OneGoal(r) == LET v == <<"v", PickFrom(Nums, r)>> IN
              <<<<IF D(S1(r), 2) = 0 THEN v ELSE <<"neg", v>>>>, RngSkip(r, 3)>>
Chain == Conf = 1 /\ Cardinality(Nums) > 1
HasVar(t) == TVars(t) # {}
ORandom ==
  LET k == D(rng, 14)  r == S1(rng)  free == Vs \ Declared IN
  IF Len(hist) < Min2(NV, IF Conf = 1 THEN 4 ELSE 3) /\ free # {}
  THEN LET v == PickFrom(free, r)  d == Dom(v, S1(r)) IN
       Declare(v, d[1], d[2]) /\ rng' = RngSkip(r, 4) /\ UNCHANGED goal
  ELSE CASE k < 4 -> LET g == IF Chain THEN Link(r) ELSE GenF(r, D(r, 3)) IN AddAssertion(g[1]) /\ rng' = RngSkip(g[2], 2) /\ goal' = Changed
    [] k >= 4 /\ k < 6 /\ Scopes /\ Top < 4 -> Push /\ rng' = RngSkip(r, 2) /\ UNCHANGED goal
    [] k >= 6 /\ k < 8 /\ Scopes /\ Top > 1 ->
         /\ Pop /\ rng' = RngSkip(r, 2)
         /\ goal' = IF goal # <<>> /\ goal.lev = Top THEN <<>> ELSE goal
    [] k >= 8 /\ k < 11 /\ goal = <<>> /\ Nums # {} ->
         LET g == IF Chain THEN OneGoal(r) ELSE GenGoal(r) IN
         IF \A j \in 1..Len(g[1]) : HasVar(g[1][j])
         THEN Goal(g[1]) /\ rng' = RngSkip(g[2], 2)
         ELSE Push /\ rng' = RngSkip(g[2], 2) /\ UNCHANGED goal
    [] OTHER -> OCheck /\ rng' = RngSkip(r, 2)
OInit == Init /\ goal = <<>>
ONext == /\ Len(hist) < L
         /\ IF Len(hist) = L - 1 THEN OCheck /\ UNCHANGED rng ELSE ORandom
(* a goal removes solutions only *)
GoalOnly == [][(goal' # goal /\ scopes' = scopes) => MustNotUnsat' = MustNotUnsat]_ovars
GoalScope == goal # <<>> => goal.lev <= Top /\ goal.decl \subseteq Declared
=============================================================================
