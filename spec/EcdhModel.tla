----------------------------- MODULE EcdhModel -----------------------------
(***************************************************************************)
(* Key exchange and conversions over small curves, for all points of the   *)
(* Edwards curves and all coordinates.  The conversion commutes with       *)
(* multiplication (Commutes) and converting back gives the same point      *)
(* (Back).  Both parties compute the same secret for any coordinate, on    *)
(* the curve, on the twist or of small order (Agree).                      *)
(***************************************************************************)
EXTENDS Ecdh, TLC, FiniteSets
\* M: the Montgomery curve with A = 2(a + d)/(a - d), 2(a + d)/(d - a) or 2 - 4d
Ed(p, a, d, h, n) == [p |-> Z(p), a |-> Z(a), d |-> Z(d), h |-> h, n |-> Z(n)]
Toy(p, a, d, h, n, conv) ==
  LET s == Z(2) ** (Z(a) ++ Z(d))
      A == IF conv = "bir" THEN FDiv(s, Z(a) -- Z(d), Z(p)) ELSE IF conv = "inv" THEN FDiv(s, Z(d) -- Z(a), Z(p)) ELSE (Z(2) -- Z(4 * d)) %% Z(p)
      \* a representative with 4 | A - 2, as in the definition of the ladder
      A4 == A ++ (Z(p) ** (((Z(2) -- A) ** ZInv(Z(p), Z(4))) %% Z(4)))
  IN [E |-> Ed(p, a, d, h, n), conv |-> conv, M |-> [p |-> Z(p), A |-> A4, h |-> h, n |-> Z(n), bits |-> 6]]
Toys == <<Toy(29, 28, 27, 8, 5, "bir"), Toy(53, 52, 3, 8, 7, "bir"), Toy(19, 1, 8, 4, 7, "iso"), Toy(43, 1, 5, 4, 13, "iso"),
          Toy(19, 1, 8, 4, 7, "inv"), Toy(43, 1, 5, 4, 13, "inv")>>
F(p) == 0..(ZInt(p) - 1)
Pts(C) == {P \in {<<Z(i), Z(j)>> : i \in F(C.p), j \in F(C.p)} : TeOn(C, P)}
VARIABLES t, P, u
vars == <<t, P, u>>
Init == t \in 1..Len(Toys) /\ P = <<>> /\ u = -1
Next == /\ u = -1 /\ P = <<>> /\ t' = t
        /\ \/ \E X \in Pts(Toys[t].E) : P' = <<ZInt(X[1]), ZInt(X[2])>> /\ u' = u
           \/ u' \in F(Toys[t].M.p) /\ P' = P
O(X) == <<Z(X[1]), Z(X[2])>>
Commutes == P # <<>> =>
  LET T == Toys[t]
      U(X) == EdToU(T.E, T.conv, X)
      L(X) == IF U(X) = NoZ THEN Z0 ELSE U(X)
      \* the ladder does not tell the neutral element from (0, 0)
  IN \A k \in 0..63 : O(P) # TeId => XMul(T.M, Z(k), U(O(P))) = L(TeMul(T.E, Z(k), O(P)))
Back == P # <<>> =>
  LET T == Toys[t]
      X == O(P)
      uu == EdToU(T.E, T.conv, X)
      \* X without its component of small order
      pure == TeMul(T.E, Z(T.E.h) ** ZInv(Z(T.E.h), T.E.n), X)
      tw == MtFromU(T.M, uu, FALSE)
      e == UToEd(T.M, T.E, T.conv, uu, ZOdd(X[1]))
  IN IF X = TeId THEN TRUE
     ELSE IF T.conv = "iso" THEN e # None /\ e \in {pure, TeNeg(T.E, pure)}
     \* on the curve with B a square u is on the curve, otherwise on its twist
     ELSE IF tw # None THEN e = X ELSE T.conv = "inv"
Agree == u >= 0 =>
  LET T == Toys[t]
      dh(k, x) == XMul(T.M, Z(k), x)
      Ks == {h \in 32..63 : h % T.M.h = 0}
  IN \A j, k \in Ks : /\ dh(j, dh(k, Z(u))) = dh(k, dh(j, Z(u)))
                      /\ (MtFromU(T.M, Z(u), FALSE) # None => (dh(j, Z(u)) = Z0 <=> MtMul(T.M, Z(j), MtFromU(T.M, Z(u), FALSE)) = Inf))
=============================================================================
