------------------------------- MODULE Boxes -------------------------------
(* Boxes: finite maps from variables to intervals, kept in registers.        *)
(* Bounds are pairs <<n, e>>: the number n/64 and, with e = -1 or 1, the     *)
(* floating-point number just below or above it.  A copy is independent.     *)
(* "filter" restricts a box by a bound on one variable; here the result is   *)
(* the hull of the solutions and whether the hull has no other points.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS NB, Flt, L, Random, Seed0, Runs
VARIABLES box, hist, rng
vars == <<box, hist, rng>>

Types == <<"R", "I", "N", "R", "B", "I">>
NV == IF Random THEN Len(Types) ELSE 2
Inf == 100000000
Big == 2147483647 \div 64          \* stands for the default integer domain
Rs == 1..NB

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
MaxB(a, b) == IF Leq(a, b) THEN b ELSE a
MinB(a, b) == IF Leq(a, b) THEN a ELSE b
IsInt(v) == Types[v] \in {"I", "N"}
FloorI(n) == (n \div 64) * 64
CeilI(n) == -FloorI(-n)
Default(v) == CASE Types[v] = "R" -> <<<<-Inf, 0>>, <<Inf, 0>>>>
                [] Types[v] = "I" -> <<<<-Big, 0>>, <<Big, 0>>>>
                [] OTHER -> <<<<0, 0>>, <<64, 0>>>>
Empty(b) == b.em
Vars(b) == {b.vs[k] : k \in 1..Len(b.vs)}
Idx(b, v) == CHOOSE k \in 1..Len(b.vs) : b.vs[k] = v
NoBox == [vs |-> <<>>, iv |-> <<>>, em |-> FALSE]

(* ----------------------------------------------------------------- filter *)
(* solutions of "v o c" where c is any number from c1 to c2, which are equal *)
(* or neighbours                                                            *)
IntC(c) == c[1] % 64 = 0
Lower(v, o, c) ==
  IF ~IsInt(v) THEN <<c[1], IF o = "ge" THEN c[2] ELSE c[2] + 1>>
  ELSE <<CASE o = "ge" /\ IntC(c) /\ c[2] > 0 -> c[1] + 64
           [] o = "gt" /\ IntC(c) -> IF c[2] < 0 THEN c[1] ELSE c[1] + 64
           [] OTHER -> CeilI(c[1]), 0>>
Upper(v, o, c) ==
  IF ~IsInt(v) THEN <<c[1], IF o = "le" THEN c[2] ELSE c[2] - 1>>
  ELSE <<CASE o = "le" /\ IntC(c) /\ c[2] < 0 -> c[1] - 64
           [] o = "lt" /\ IntC(c) -> IF c[2] > 0 THEN c[1] ELSE c[1] - 64
           [] OTHER -> FloorI(c[1]), 0>>
Hull(v, o, c1, c2, lo, hi) ==
  CASE o \in {"ge", "gt"} -> <<MaxB(lo, Lower(v, o, c1)), hi>>
    [] o \in {"le", "lt"} -> <<lo, MinB(hi, Upper(v, o, c2))>>
    [] o = "eq" -> <<MaxB(lo, Lower(v, "ge", c1)), MinB(hi, Upper(v, "le", c2))>>
    [] OTHER -> <<lo, hi>>
Neg(o) == CASE o = "lt" -> "ge" [] o = "le" -> "gt" [] o = "eq" -> "ne"
            [] o = "ne" -> "eq" [] o = "ge" -> "lt" [] o = "gt" -> "le"
Mirror(o) == CASE o = "lt" -> "gt" [] o = "le" -> "ge" [] o = "ge" -> "le"
               [] o = "gt" -> "lt" [] OTHER -> o

(* ------------------------------------------------------------------ steps *)
Out(b) == <<IF b.em THEN 1 ELSE 0, b.vs, b.iv>>
Do(op, set) ==   \* set: sequence of <<register, box>>
  /\ box' = [r \in Rs |-> IF \E k \in 1..Len(set) : set[k][1] = r
                          THEN set[CHOOSE k \in 1..Len(set) : set[k][1] = r][2] ELSE box[r]]
  /\ hist' = Append(hist, <<op, [k \in 1..Len(set) |-> <<set[k][1]>> \o Out(set[k][2])]>>)
Add1(b, v, iv) == [b EXCEPT !.vs = Append(@, v), !.iv = Append(@, iv)]
RECURSIVE Of(_)
Of(vs) == IF vs = <<>> THEN NoBox ELSE Add1(Of(SubSeq(vs, 1, Len(vs) - 1)), vs[Len(vs)], Default(vs[Len(vs)]))
New(r, vs) == Do(<<"new", r, vs>>, <<<<r, Of(vs)>>>>)
Add(r, v) == v \notin Vars(box[r]) /\ ~Empty(box[r]) /\ Do(<<"add", r, v>>, <<<<r, Add1(box[r], v, Default(v))>>>>)
AddB(r, v, a, b) == /\ v \notin Vars(box[r]) /\ ~Empty(box[r])
                    /\ Do(<<"addb", r, v, a, b>>, <<<<r, Add1(box[r], v, <<<<a, 0>>, <<b, 0>>>>)>>>>)
Copy(a, b) == a # b /\ Do(<<"copy", a, b>>, <<<<b, box[a]>>>>)
Set(r, k, how, a, b) == /\ k \in 1..Len(box[r].vs) /\ ~Empty(box[r])
                        /\ Do(<<"set", r, k, how, a, b>>, <<<<r, [box[r] EXCEPT !.iv[k] = <<<<a, 0>>, <<b, 0>>>>]>>>>)
SetEmpty(r) == box[r].vs # <<>> /\ Do(<<"empty", r>>, <<<<r, [box[r] EXCEPT !.em = TRUE]>>>>)
CanBisect(b, k) ==
  /\ k \in 1..Len(b.vs) /\ ~Empty(b) /\ Types[b.vs[k]] # "B"
  /\ LET lo == b.iv[k][1]  hi == b.iv[k][2] IN
     lo[2] = 0 /\ hi[2] = 0 /\ lo[1] > -Inf /\ hi[1] < Inf /\
     IF IsInt(b.vs[k]) THEN hi[1] - lo[1] >= 64 /\ hi[1] < Big /\ lo[1] > -Big
     ELSE hi[1] - lo[1] >= 4 /\ (lo[1] + hi[1]) % 2 = 0
Bisect(r, k, how, x, y) ==
  /\ x # y /\ CanBisect(box[r], k)
  /\ LET b == box[r]  lo == b.iv[k][1][1]  hi == b.iv[k][2][1]
         m == IF IsInt(b.vs[k]) THEN FloorI((lo + hi) \div 2) ELSE (lo + hi) \div 2
         n == IF IsInt(b.vs[k]) THEN m + 64 ELSE m IN
     Do(<<"bisect", r, k, how, x, y>>, <<<<x, [b EXCEPT !.iv[k][2] = <<m, 0>>]>>, <<y, [b EXCEPT !.iv[k][1] = <<n, 0>>]>>>>)
Union(a, b) ==
  /\ box[a].vs = box[b].vs /\ box[a].vs # <<>>
  /\ Do(<<"union", a, b>>,
        <<<<a, IF box[a].em THEN box[b] ELSE IF box[b].em THEN box[a]
               ELSE [box[a] EXCEPT !.iv = [k \in DOMAIN @ |-> <<MinB(@[k][1], box[b].iv[k][1]), MaxB(@[k][2], box[b].iv[k][2])>>]]>>>>)
(* side: which side the variable stands; pol: under a negation or not        *)
Filter(r, k, o, side, pol, cn, ce) ==
  /\ k \in 1..Len(box[r].vs) /\ ~Empty(box[r]) /\ Types[box[r].vs[k]] # "B"
  /\ LET b == box[r]  v == b.vs[k]
         c1 == <<cn, IF ce = 2 THEN -1 ELSE 0>>  c2 == <<cn, IF ce = 1 THEN 1 ELSE 0>>
         o1 == IF side = 1 THEN Mirror(o) ELSE o     \* "c o v" is "v mirror(o) c"
         o2 == IF pol = 1 THEN Neg(o1) ELSE o1
         h == Hull(v, o2, c1, c2, b.iv[k][1], b.iv[k][2])
         em == ~Leq(h[1], h[2]) IN
     Do(<<"filter", r, k, o, side, pol, cn, ce, o2>>,
        <<<<r, IF em THEN [b EXCEPT !.em = TRUE] ELSE [b EXCEPT !.iv[k] = h]>>>>)
(* widest dimension: finite widths only, and no neighbours of a number       *)
Plain(b) == ~b.em /\ b.vs # <<>> /\ \A k \in 1..Len(b.vs) : b.iv[k][1][2] = 0 /\ b.iv[k][2][2] = 0 /\ b.iv[k][1][1] > -Inf /\ b.iv[k][2][1] < Inf
                          /\ (Types[b.vs[k]] = "I" => b.iv[k][1][1] > -Big /\ b.iv[k][2][1] < Big)
Width(b, k) == b.iv[k][2][1] - b.iv[k][1][1]
Widest(b) == LET S == {k \in 1..Len(b.vs) : Width(b, k) > 0 /\ \A j \in 1..Len(b.vs) : Width(b, k) >= Width(b, j)} IN
             IF S = {} THEN <<0, 0>> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN <<Width(b, k), k>>
Diam(r) == Plain(box[r]) /\ Do(<<"diam", r>> \o Widest(box[r]), <<>>)
(* formulas that are no bound on one variable: the box keeps its solutions   *)
Other(r, n) == box[r].vs # <<>> /\ ~Empty(box[r]) /\ Do(<<"other", r, n>>, <<>>)

Ops == <<"lt", "le", "eq", "ne", "ge", "gt">>
D2(r, n) == RngVal(r, n)
(* a legal interval for v *)
Lo(v, r) == CASE Types[v] = "R" -> 16 * (D2(r, 13) - 6) [] Types[v] = "I" -> 64 * (D2(r, 7) - 3) [] OTHER -> 64 * D2(r, 2)
Hi(v, lo, r) == CASE Types[v] = "R" -> lo + 16 * D2(r, 9) [] Types[v] = "I" -> lo + 64 * D2(r, 5) [] OTHER -> 64
Random1 ==
  LET k == RngVal(rng, 22)  d(i, n) == Draw(rng, i, n)
      r == 1 + d(1, NB)  q == 1 + d(2, NB)  v == 1 + d(3, NV)  n == Len(box[r].vs)
      j == IF n = 0 THEN 1 ELSE 1 + d(4, n)
      w == IF n = 0 THEN 1 ELSE box[r].vs[j]
      R(i) == RngSkip(rng, i) IN
  CASE k = 0 -> New(r, LET a == 1 + d(4, NV)  b == 1 + d(5, NV) IN IF a = b THEN <<a>> ELSE <<a, b>>)
    [] k \in {1, 2} -> Add(r, v)
    [] k \in {3, 4, 5} -> LET a == Lo(v, R(5)) IN AddB(r, v, a, Hi(v, a, R(6)))
    [] k \in {6, 7} -> Copy(r, q)
    [] k \in {8, 9} -> LET a == Lo(w, R(5)) IN Set(r, j, d(7, 2), a, Hi(w, a, R(6)))
    [] k = 10 -> d(5, 4) = 0 /\ SetEmpty(r)
    [] k \in {11, 12, 13} -> Bisect(r, j, d(5, 2), q, 1 + ((q + d(6, NB - 1)) % NB))
    [] k = 14 -> Union(r, q)
    [] k = 15 -> Diam(r)
    [] k = 16 -> Flt /\ Other(r, d(5, 6))
    [] k = 17 /\ ~Flt -> Bisect(r, j, d(5, 2), r, q)
    [] k = 18 /\ ~Flt -> Union(r, q)
    [] k = 19 /\ ~Flt -> Diam(r)
    [] OTHER -> Flt /\ LET c == 16 * (d(5, 17) - 8) IN
                Filter(r, j, DrawSeq(rng, 6, Ops), d(7, 2), d(8, 2), c, d(9, 4) % 3)
Exhaustive ==
  \/ \E r \in Rs : \E v \in 1..NV : AddB(r, v, -64, 64)
  \/ ~Flt /\ \E r \in Rs : \E v \in 1..NV : Add(r, v)
  \/ \E a, b \in Rs : Copy(a, b) \/ Union(a, b)
  \/ \E r \in Rs : SetEmpty(r) \/ Diam(r)
  \/ \E r \in Rs : \E k \in 1..2 : Set(r, k, k % 2, 0, 64) \/ Bisect(r, k, k % 2, 1, 2)
  \/ \E r \in Rs : \E k \in 1..2 : \E o \in {"lt", "ge", "eq", "ne"} : \E c \in {-64, 0, 32} :
       Flt /\ r = 1 /\ Filter(r, k, o, c % 3, (c \div 64) % 2, c, 0)

Init == /\ box = [r \in Rs |-> NoBox]
        /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1021 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random
           THEN /\ rng' = RngSkip(rng, 13)
                /\ \/ Random1
                   \/ ~(ENABLED Random1) /\ UNCHANGED box /\ hist' = Append(hist, <<<<"skip">>, <<>>>>)
           ELSE Exhaustive /\ UNCHANGED rng
Spec == Init /\ [][Next]_vars

Sizes == \A r \in Rs : Len(box[r].vs) = Len(box[r].iv) /\ Cardinality(Vars(box[r])) = Len(box[r].vs)
Proper == \A r \in Rs : ~box[r].em => \A k \in DOMAIN box[r].iv : Leq(box[r].iv[k][1], box[r].iv[k][2])
(* a filtered box never gains a point *)
Shrinks == [][\A r \in Rs : (Len(hist') > 0 /\ hist'[Len(hist')][1][1] = "filter" /\ ~box'[r].em) =>
                \A k \in DOMAIN box[r].iv : Leq(box[r].iv[k][1], box'[r].iv[k][1]) /\ Leq(box'[r].iv[k][2], box[r].iv[k][2])]_vars
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
