----------------------------- MODULE EcdsaModel ----------------------------
(***************************************************************************)
(* ECDSA over small curves of prime order, exhaustively: a signature made  *)
(* with any nonce verifies and recovers to its key with its hint; and for  *)
(* any r, s and digest the keys that verify are exactly those recovered.   *)
(***************************************************************************)
EXTENDS Ecdsa, TLC
Toys == <<[p |-> Z(17), a |-> Z(2), b |-> Z(2), n |-> Z(19), g |-> <<Z(5), Z(1)>>],      \* n above p
          [p |-> Z(13), a |-> Z0, b |-> Z(7), n |-> Z(7), g |-> <<Z(7), Z(5)>>],
          [p |-> Z(23), a |-> Z(20), b |-> Z(15), n |-> Z(17), g |-> <<Z(1), Z(6)>>]>>
VARIABLES t, a, m, k
Init == t \in 1..Len(Toys) /\ a = -1 /\ m = -1 /\ k = -1
Next == /\ a = -1 /\ t' = t
        /\ LET n == ZInt(Toys[t].n) IN a' \in 0..n /\ m' \in 0..(n - 1) /\ k' \in 0..n
Signed == a > 0 /\ k > 0 =>
  LET C == Toys[t]
      A == EcMul(C, Z(a), C.g)
      s == SigWith(C, Z(a), Z(m), Z(k))
  IN Z(a) # C.n /\ Z(k) # C.n /\ s[1] # Z0 /\ s[2] # Z0 =>
       /\ VerifyZ(C, Z(m), s[1], s[2], A)
       /\ RecoverZ(C, Z(m), s[1], s[2], s[3]) = A
       /\ \A d \in 1..(ZInt(C.n) - 1) : VerifyZ(C, Z(m), s[1], C.n -- s[2], EcMul(C, Z(d), C.g)) => FALSE
\* here a and k stand for r and s
Exact == a >= 0 =>
  LET C == Toys[t]
      keys == {EcMul(C, Z(d), C.g) : d \in 1..(ZInt(C.n) - 1)}
  IN {A \in keys : VerifyZ(C, Z(m), Z(a), Z(k), A)} = {RecoverZ(C, Z(m), Z(a), Z(k), h) : h \in 0..3} \ {Inf}
=============================================================================
