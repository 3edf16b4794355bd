----------------------------- MODULE StreamTest ----------------------------
\* The fast evaluations agree with the definitions (on pseudo-random states).
EXTENDS Stream, TLC
Rnd(n, seed) == Tup([i \in 1..n |-> WMul(WXor(i * 7919, WRotl(seed, i)), 1664525 + 4 * i)])
ASSUME \A k \in 1..20 : LET x == Rnd(16, k * 7717) IN ChaCha(x) = ChaChaDef(x) /\ Salsa(x) = SalsaDef(x)
ASSUME \A k \in 1..6 : LET key == Tup([i \in 1..(k * 13) |-> (i * i + k) % 256])
                       IN Arc4Bytes(key, 50) = Arc4NextDef(Arc4InitDef(key), 50)[2]
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
