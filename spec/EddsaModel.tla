----------------------------- MODULE EddsaModel ----------------------------
(***************************************************************************)
(* EdDSA equations over all points of small Edwards curves with cofactors  *)
(* 8 and 4, for any challenge.  Encodings are one to one (Encodings).  A   *)
(* signature satisfying the strict equation satisfies the cofactored one,  *)
(* which holds exactly when the difference is of small order (Cofactored). *)
(* A key of mixed order has strict signatures only for some challenges     *)
(* (Mixed).  A batch with an entry that fails the cofactored equation      *)
(* holds for at most one coefficient of that entry (Sound).                *)
(***************************************************************************)
EXTENDS Eddsa, TLC, FiniteSets
Toys == <<[p |-> Z(29), a |-> Z(28), d |-> Z(27), h |-> 8, n |-> Z(5), es |-> 1, g |-> <<Z(2), Z(23)>>],
          [p |-> Z(19), a |-> Z(1), d |-> Z(8), h |-> 4, n |-> Z(7), es |-> 1, g |-> <<Z(2), Z(9)>>]>>
\* the points of small order
Small == <<{<<0, 1>>, <<0, 28>>, <<7, 3>>, <<7, 26>>, <<12, 0>>, <<17, 0>>, <<22, 3>>, <<22, 26>>}, {<<0, 1>>, <<0, 18>>, <<1, 0>>, <<18, 0>>}>>
Pts(C) == {P \in {<<Z(i), Z(j)>> : i \in 0..(ZInt(C.p) - 1), j \in 0..(ZInt(C.p) - 1)} : TeOn(C, P)}
I(X) == <<ZInt(X[1]), ZInt(X[2])>>
O(X) == <<Z(X[1]), Z(X[2])>>
VARIABLES t, A, R, ch
vars == <<t, A, R, ch>>
Init == t \in 1..Len(Toys) /\ A = <<>> /\ R = <<>> /\ ch = -1
Next == /\ ch = -1 /\ t' = t
        /\ \E X, Y \in Pts(Toys[t]) : A' = I(X) /\ R' = I(Y)
        /\ ch' \in {0, 1, 2, ZInt(Toys[t].n) - 1}
Go == ch >= 0
Cofactored == Go =>
  LET C == Toys[t]
      D(s) == EdDiff(C, Z(s), Z(ch), O(A), O(R))
      cof(s) == TeMul(C, Z(C.h), D(s)) = TeId
  IN /\ \A s \in 0..(ZInt(C.n) - 1) : (D(s) = TeId => cof(s)) /\ (cof(s) <=> I(D(s)) \in Small[t])
     /\ Cardinality({s \in 0..(ZInt(C.n) - 1) : cof(s)}) = 1          \* always one s, also for keys of mixed order
Mixed == Go =>
  LET C == Toys[t]
      ok(c) == \E s \in 0..(ZInt(C.n) - 1) : EdDiff(C, Z(s), Z(c), O(A), O(R)) = TeId
      \* R and A without torsion: every challenge has a strict signature
      pure(X) == TeMul(C, C.n, X) = TeId
  IN IF pure(O(A)) THEN ok(ch) <=> pure(O(R))
     ELSE \A c \in 0..2 : ok(c) /\ ok(c + 1) => FALSE
Encodings == A = <<>> =>
  LET C == Toys[t]
  IN /\ \A P \in Pts(Toys[t]) : TeDecode(C, TeEncode(C, P)) = P
     /\ \A b \in 0..255 : LET P == TeDecode(C, <<b>>) IN P # None => P \in Pts(Toys[t]) /\ TeEncode(C, P) = <<b>>
     /\ Cardinality(Pts(Toys[t])) = C.h * ZInt(C.n)
\* A, R: differences of two entries with the coefficients 1 and c
Sound == Go /\ ch = 0 =>
  LET C == Toys[t]
      cof(D) == TeMul(C, Z(C.h), D)
      hold(c) == cof(TeAdd(C, O(A), TeMul(C, Z(c), O(R)))) = TeId
      held == {c \in 1..(ZInt(C.n) - 1) : hold(c)}
  IN IF cof(O(R)) = TeId THEN (cof(O(A)) = TeId <=> held # {}) ELSE Cardinality(held) <= 1
=============================================================================
