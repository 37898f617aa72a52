-------------------------------- MODULE Conv -------------------------------
(* Conversions between numbers.  A number is sgn * (2^p + d) with p >= 3 and *)
(* |d| <= 2 (p = -1: the number d); as a double it may be halved q times.    *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, hist
Cases == {<<s, p, d, q>> : s \in {-1, 1}, p \in {-1} \cup (3..62), d \in -2..2, q \in 0..1} \cup
         {<<s, 63, d, 0>> : s \in {-1}, d \in {0, -1, -2}} \cup {<<s, 63, d, 0>> : s \in {1}, d \in {-1, -2}}
AtMost(s, p, d, m, e) ==      \* s * (2^p + d) <= 2^m + e, for m > 3, |e| <= 1
  s < 0 \/ p < m \/ (p = m /\ d <= e)
AtLeast(s, p, d, m, e) ==     \* s * (2^p + d) >= -(2^m + e)
  s > 0 \/ p < m \/ (p = m /\ d <= e)
FitsInt(x) == AtMost(x[1], x[2], x[3], 31, -1) /\ AtLeast(x[1], x[2], x[3], 31, 0)
FitsDbl(x) == AtMost(x[1], x[2], x[3], 53, 0) /\ AtLeast(x[1], x[2], x[3], 53, 0)
Whole(x) == x[4] = 0 \/ x[3] % 2 = 0
(* the double x is integral and within int; only asked where it is exact     *)
HalfFits(x) == IF x[4] = 0 THEN FitsInt(x)
               ELSE /\ AtMost(x[1], x[2], x[3], 32, -2) /\ AtLeast(x[1], x[2], x[3], 32, 0)
B(b) == IF b THEN 1 ELSE 0
Init == c \in Cases /\ hist = 0
Next == FALSE /\ UNCHANGED <<c, hist>>
Emit == PrintT("@@" \o ToJson(c \o <<B(FitsInt(c)), B(FitsDbl(c)), B(HalfFits(c) /\ Whole(c))>>))
=============================================================================
