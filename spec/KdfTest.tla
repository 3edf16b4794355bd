------------------------------ MODULE KdfTest ------------------------------
\* The fast evaluations agree with the definitions.
EXTENDS Kdf, TLC
Rnd(n, seed) == Tup([i \in 1..n |-> WMul(WXor(i * 7919, WRotl(seed, i)), 1664525 + 4 * i)])
ASSUME \A r \in 1..2 : \A n \in {2, 4, 8} : LET b == Rnd(32 * r, r * 7717 + n) IN RoMix(b, n) = RoMixDef(b, n)
ASSUME LET a == <<1, 2, 3>> b == <<9, 8, 7, 6, 5>> IN BfLoop(BfInit, a, b, 1) = BfLoopDef(BfInit, a, b, 1)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
