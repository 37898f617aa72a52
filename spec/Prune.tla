------------------------------- MODULE Prune -------------------------------
(* One round of pruning: a box, constraints, and every grid point of the     *)
(* box with the truth of each constraint there.  A contractor must keep the  *)
(* points that satisfy what it contracts, only shrink the box, report the    *)
(* dimensions it changed, and explain an empty box by constraints that have  *)
(* no common solution; an evaluator must not contradict a point.             *)
EXTENDS Solve

CONSTANT NF          \* number of constraints
VARIABLE phase

RECURSIVE Points(_, _)
Points(vs, p) == IF vs = <<>> THEN {p}
                 ELSE UNION {Points(Tail(vs), [p EXCEPT ![Head(vs)] = x]) : x \in Grid(Head(vs))}
Out(P) == [k \in 1..Len(P) |-> <<P[k], [j \in 1..Len(fs) |-> Truth(fs[j], P[k])]>>]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

GenP(r) == LET k == D(r, 8) IN
           IF k < 4 THEN GenC(S1(r))
           ELSE LET a == GenT(S1(r), 2)  b == GenT(a[2], 1)
                    f == <<"rel", DrawSeq(b[2], 1, Ops), a[1], b[1]>> IN
                <<IF k = 7 THEN <<"neg", f>> ELSE f, RngSkip(b[2], 2)>>

(* Constraints in a chain: each shares a variable with the next one only, so *)
(* that what empties the box is far from where it is noticed.                *)
Chain == Mix = 11
Order(r) == <<<<1, 2, 3, 4>>, <<2, 4, 1, 3>>, <<3, 1, 4, 2>>, <<4, 3, 2, 1>>, <<1, 3, 2, 4>>, <<2, 1, 4, 3>>>>[1 + (r % 6)]
ChainBound(k, r) ==
  LET o == Order(20 + hist[1][3] + hist[2][4] + hist[3][3] + hist[4][4])
      v == IF k = NV THEN o[1] ELSE o[NV] IN
  <<<<"rel", IF k = NV THEN DrawSeq(r, 1, <<"le", "le", "lt">>) ELSE DrawSeq(r, 1, <<"ge", "ge", "gt">>),
      <<"v", v>>, <<"c", IF k = NV THEN 4 * DeclOf(v)[2] + 2 * D(S1(r), 2) ELSE 4 * DeclOf(v)[3] - 2 * D(S1(r), 2)>>>>, RngSkip(r, 2)>>
Link(k, r) ==
  LET o == Order(20 + hist[1][3] + hist[2][4] + hist[3][3] + hist[4][4])  c == IF D(r, 3) = 0 THEN 2 ELSE 0
      a == <<"v", o[k]>>  b == <<"v", o[k + 1]>>  t == IF c = 0 THEN b ELSE <<"add", b, <<"c", c>>>> IN
  <<<<"rel", DrawSeq(r, 2, <<"eq", "eq", "ge">>), a, t>>, RngSkip(r, 3)>>
pvars == <<scopes, fs, hist, rng, phase>>
PInit == Init /\ phase = 0
PNext ==
  \/ /\ phase = 0 /\ Len(hist) < NV
     /\ LET v == Len(hist) + 1  d == Dom(v, S1(rng)) IN Declare(v, IF Chain THEN Max2(d[1], -1) ELSE d[1], IF Chain THEN Max2(d[1], -1) + 1 + D(S1(rng), 2) ELSE d[2])
     /\ rng' = RngSkip(rng, 5)
     /\ phase' = IF Len(hist) = NV - 1 THEN 1 ELSE 0
  \/ /\ phase \in 1..NF
     /\ LET g == IF Chain THEN (IF phase < NV THEN Link(phase, rng)
                            ELSE IF phase < NV + 2 THEN ChainBound(phase, rng) ELSE Bound(rng)) ELSE GenP(rng) IN
        AddAssertion(g[1]) /\ rng' = RngSkip(g[2], 3)
     /\ phase' = phase + 1
  \/ /\ phase = NF + 1
     /\ hist' = Append(hist, <<"points", Out(ToSeq(Points(SetToSeq(Declared), [v \in Vs |-> 0])))>>)
     /\ phase' = phase + 1
     /\ UNCHANGED <<scopes, fs, rng>>
PEmit == (phase = NF + 2) => PrintT("@@" \o ToJson(hist))
=============================================================================
