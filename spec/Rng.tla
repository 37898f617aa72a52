-------------------------------- MODULE Rng --------------------------------
(* A Wichmann-Hill generator kept in the state.  The sampling configurations *)
(* resolve the nondeterminism of a specification with it, so that a run of   *)
(* TLC is reproducible from its seed and can use all workers.                *)
EXTENDS Naturals, Sequences

(* s < 2^31; every product stays below 2^31 *)
RngSeed(s) == << 1 + (((s % 30268) * 7919 + 17) % 30268), 1 + (((s % 65521) * 104 + (s \div 65521)) % 30306),
                 1 + (((s % 30322) * 1299 + (s \div 30322) * 71) % 30322) >>
RngStep(r) == << (171 * r[1]) % 30269, (172 * r[2]) % 30307, (170 * r[3]) % 30323 >>
(* a number in 0 .. n-1 *)
RngVal(r, n) == (r[1] + r[2] + r[3]) % n
RECURSIVE RngSkip(_, _)
RngSkip(r, k) == IF k = 0 THEN r ELSE RngSkip(RngStep(r), k - 1)
(* k-th draw (k >= 1) of the current step, in 0 .. n-1 *)
Draw(r, k, n) == RngVal(RngSkip(r, k), n)
DrawSeq(r, k, s) == s[1 + Draw(r, k, Len(s))]
=============================================================================
