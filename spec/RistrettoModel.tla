--------------------------- MODULE RistrettoModel --------------------------
(***************************************************************************)
(* All doubled points and all field elements of small curves: every        *)
(* representative of an element has the same encoding, which decodes to    *)
(* the same element (Unique); what decodes is the encoding of a doubled    *)
(* point (Canonical); there are exactly n encodings (Count); the map gives *)
(* doubled points (Maps) and RPre gives all of their preimages (Inverse).  *)
(***************************************************************************)
EXTENDS Ristretto, TLC
Toy(p, a, d, h, n, q) == [C |-> [p |-> Z(p), a |-> Z(a), d |-> Z(d), h |-> h, n |-> Z(n), fs |-> 1],
                       K |-> [qnr |-> Z(q), sad |-> ZRootMod(Z(a * d - 1), Z(p))]]
\* RFC 9496, A.1
ASSUME LET C == EdCurves["ed25519"]
           g(k) == ToHex(REncode(C, TeMul(C, Z(k), C.g)))
       IN /\ g(1) = "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76"
          /\ g(2) = "6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919"
Toys == <<Toy(29, 28, 27, 8, 5, 12), Toy(53, 52, 3, 8, 7, 23), Toy(61, 60, 2, 8, 7, 11), Toy(19, 1, 8, 4, 7, 18), Toy(43, 1, 5, 4, 13, 42), Toy(59, 1, 10, 4, 17, 58)>>
I(X) == <<ZInt(X[1]), ZInt(X[2])>>
O(X) == <<Z(X[1]), Z(X[2])>>
F(C) == 0..(ZInt(C.p) - 1)
Pts(C) == {P \in {<<Z(i), Z(j)>> : i \in F(C), j \in F(C)} : TeOn(C, P)}
VARIABLES t, P, u
vars == <<t, P, u>>
Init == t \in 1..Len(Toys) /\ P = <<>> /\ u = -1
Next == /\ u = -1 /\ P = <<>> /\ t' = t
        /\ \/ \E X \in Pts(Toys[t].C) : P' = I(TeAdd(Toys[t].C, X, X)) /\ u' = u
           \/ u' \in F(Toys[t].C) /\ P' = P
C0 == Toys[t].C
K0 == Toys[t].K
Even(C, X) == TeMul(C, Z(C.h \div 2) ** C.n, X) = TeId
Unique == P # <<>> =>
  LET C == C0
      b == REncode(C, O(P))
  IN /\ \A R \in RCoset(C, O(P)) : REncode(C, R) = b
     /\ RDecode(C, b) # None /\ RDecode(C, b) \in RCoset(C, O(P))
     /\ RIsId(C, O(P)) <=> b = <<0>>
Canonical == u >= 0 =>
  LET C == C0
      X == RDecode(C, <<u>>)
  IN X # None => TeOn(C, X) /\ Even(C, X) /\ REncode(C, X) = <<u>>
Count == P = <<>> /\ u = -1 => Cardinality({s \in 0..255 : RDecode(C0, <<s>>) # None}) = ZInt(C0.n)
Maps == u >= 0 => LET X == RMap(C0, K0, Z(u)) IN TeOn(C0, X) /\ Even(C0, X) /\ X = RMap(C0, K0, FNeg(Z(u), C0.p))
Inverse == P # <<>> => {ZInt(x) : x \in RPre(C0, K0, O(P))} = {x \in F(C0) : x % 2 = 0 /\ RMap(C0, K0, Z(x)) \in RCoset(C0, O(P))}
=============================================================================
