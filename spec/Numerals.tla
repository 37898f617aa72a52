------------------------------ MODULE Numerals -----------------------------
(* Every finite number can stand anywhere in an expression, and is printed   *)
(* so that it is read back as itself.  A number is sg * m * 2^e with         *)
(* m = hi * 2^27 + lo < 2^53; pos says where it stands.                      *)
EXTENDS Integers, Sequences, TLC, Json, Rng

CONSTANTS Random, Seed0, Runs, L
VARIABLES hist, rng
vars == <<hist, rng>>

HiMax == 67108863   LoMax == 134217727          \* 2^26 - 1, 2^27 - 1
His == <<0, 0, 0, 1, 33554432, HiMax, HiMax, 13421772>>
Los == <<0, 1, 1, 3, 5, 67108864, LoMax, 107374182>>
(* exponents: around the limits of the formats and where integers end        *)
Exps == <<-1074, -1073, -1022, -150, -64, -55, -53, -52, -10, -4, -1, 0, 0, 0, 1, 9, 10, 11, 12, 13, 31, 53, 63, 64, 80, 128, 900, 971>>
Positions == 0..10
Number(sg, hi, lo, e) == IF hi = 0 /\ lo = 0 THEN <<sg, 0, 1, e>> ELSE <<sg, hi, lo, e>>
Cases == {Number(sg, His[i], Los[j], Exps[k]) : sg \in {-1, 1}, i \in 1..Len(His), j \in 1..Len(Los), k \in 1..Len(Exps)}
Pick == LET h == IF Draw(rng, 1, 3) = 0 THEN DrawSeq(rng, 2, His) ELSE (Draw(rng, 3, 8192) * 8192 + Draw(rng, 4, 8192)) % (HiMax + 1)
            l == IF Draw(rng, 5, 3) = 0 THEN DrawSeq(rng, 6, Los) ELSE (Draw(rng, 7, 16384) * 8192 + Draw(rng, 8, 8192)) % (LoMax + 1)
            e == IF Draw(rng, 9, 3) = 0 THEN DrawSeq(rng, 10, Exps) ELSE Draw(rng, 11, 2046) - 1074
        IN Number(1 - 2 * Draw(rng, 12, 2), h, l, e)
(* what the reader is to find: the sign and the number, in this position     *)
Write(n, pos) == hist' = Append(hist, n \o <<pos>>)
Init == /\ hist = <<>>
        /\ rng \in IF Random THEN {RngSeed(Seed0 * 1049 + s) : s \in 1..Runs} ELSE {<<0, 0, 0>>}
Next == /\ Len(hist) < L
        /\ IF Random
           THEN Write(Pick, Draw(rng, 13, 11)) /\ rng' = RngSkip(rng, 14)
           ELSE (\E n \in Cases, pos \in Positions : Write(n, pos)) /\ UNCHANGED rng
Fits == \A k \in 1..Len(hist) : LET n == hist[k] IN
          n[2] \in 0..HiMax /\ n[3] \in 0..LoMax /\ n[2] + n[3] > 0 /\ n[4] \in -1074..971
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson(hist))
=============================================================================
