---------------------------- MODULE SchnorrModel ---------------------------
(***************************************************************************)
(* Schnorr signatures over small curves of prime order with any challenge: *)
(* the s of a signature is the only one that verifies (Unique); a tweaked  *)
(* private key belongs to the tweaked x-only public key (Tweaks); and a    *)
(* batch equation with a wrong entry holds for at most one coefficient of  *)
(* that entry (Sound), while without coefficients errors cancel (Cancel).  *)
(***************************************************************************)
EXTENDS Schnorr, TLC
Toys == <<[p |-> Z(11), a |-> Z(1), b |-> Z(6), n |-> Z(13), g |-> <<Z(2), Z(4)>>],
          [p |-> Z(23), a |-> Z(20), b |-> Z(15), n |-> Z(17), g |-> <<Z(1), Z(6)>>]>>
VARIABLES t, a, k, e
Init == t \in 1..Len(Toys) /\ a = 0 /\ k = 0 /\ e = -1
Next == /\ e = -1 /\ t' = t
        /\ LET n == ZInt(Toys[t].n) IN a' \in 1..(n - 1) /\ k' \in 1..(n - 1) /\ e' \in 0..(n - 1)
Go == e >= 0
Unique == Go =>
  LET C == Toys[t]
      A == EcMul(C, Z(a), C.g)
      R == EcMul(C, Z(k), C.g)
      ev == (Fix(C, Z(k), EvenY(R)) ++ (Z(e) ** EvenKey(C, Z(a)))) %% C.n
      sq == (Fix(C, Z(k), FSquare(R[2], C.p)) ++ (Z(e) ** Z(a))) %% C.n
  IN \A i \in 0..(ZInt(C.n) - 1) :
       /\ SchnorrEq(C, R[1], Z(i), Z(e), EcFromX(C, A[1], FALSE), EvenY) <=> (Z(i) = ev)
       /\ SchnorrEq(C, R[1], Z(i), Z(e), A, LAMBDA X : FSquare(X[2], C.p)) <=> (Z(i) = sq)
\* a: key, e: tweak
Tweaks == Go =>
  LET C == Toys[t]
      A == EcMul(C, Z(a), C.g)
      d == (EvenKey(C, Z(a)) ++ Z(e)) %% C.n
      Q == EcAdd(C, EcFromX(C, A[1], FALSE), EcMul(C, Z(e), C.g))
  IN EcMul(C, d, C.g) = Q
\* errors of two entries, D1 = a G and D2 = k G, with the coefficients 1 and c
Sound == Go /\ e = 0 =>
  LET C == Toys[t]
      D1 == EcMul(C, Z(a), C.g)
      D2 == EcMul(C, Z(k), C.g)
  IN \A c, d \in 1..(ZInt(C.n) - 1) :
       EcAdd(C, D1, EcMul(C, Z(c), D2)) = Inf /\ EcAdd(C, D1, EcMul(C, Z(d), D2)) = Inf => c = d
Cancel == Go /\ Z(k) = Toys[t].n -- Z(a) => EcAdd(Toys[t], EcMul(Toys[t], Z(a), Toys[t].g), EcMul(Toys[t], Z(k), Toys[t].g)) = Inf
=============================================================================
