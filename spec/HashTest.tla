------------------------------ MODULE HashTest ------------------------------
(* Exhaustive comparison of the accelerated hash evaluation with the TLA+   *)
(* definitions: one state per hash and message length.                      *)
EXTENDS Hash, TLC
CONSTANTS Lens
VARIABLES a, n
Msg(k) == [i \in 1..k |-> (7*i + (i*i) \div 5 + k) % 256]
Init == a \in {HashIds[i] : i \in 1..Len(HashIds)} /\ n \in Lens
Next == UNCHANGED <<a, n>>
Agree == HashF(a, Msg(n)) = HashDef(a, Msg(n))
KSt == [i \in 1..25 |-> <<(i * 12345 + n) * (n + 3), i * 7 + n * n - 100>>]
KAgree == (a = "sha3_256") => KeccakF(KSt) = KeccakFDef(KSt)
SizeOk == Len(HashDef(a, Msg(n))) = HashSize(a)
Dump == PrintT(<<a, n, ToHex(HashDef(a, Msg(n)))>>)
=============================================================================
