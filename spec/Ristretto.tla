------------------------------ MODULE Ristretto ----------------------------
(***************************************************************************)
(* The prime-order groups built from Edwards curves of cofactor 8 (a = -1, *)
(* RFC 9496) and cofactor 4 (a = 1).  A group element is a coset of the    *)
(* points of order dividing 4 (or 2) in the set of doubled points.         *)
(*                                                                         *)
(* Numbers that are odd count as negative.                                 *)
(***************************************************************************)
EXTENDS Eddsa, FiniteSets
\* qnr: a number that is not a square; sad: the root of a d - 1 that the map uses
RisConst == [ed25519 |-> [qnr |-> ZHex("2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0"),
                          sad |-> ZHex("376931bf2b8348ac0f3cfcc931f5d1fdaf9d8e0c1b7854bd7e97f6a0497b2e1b")],
             ed448 |-> [qnr |-> P448 -- Z1,
                        sad |-> ZHex("12fec0c0b25b7a49443b8748734adcac4628c5f656a49f7b424d977051e65ca6f14c065a189aabdeea38888db42b4f0179d2e21836749f46")],
             ed1174 |-> [qnr |-> Z2(251) -- Z(10),
                         sad |-> ZHex("005cfbdd72b1ed482aafda05d692e7907911649907e797f998a6347bc55dd8a7")]]
Abs(C, x) == IF ZOdd(x) THEN FNeg(x, C.p) ELSE x
MinusAbs(C, x) == IF ZOdd(x) THEN x ELSE FNeg(x, C.p)
\* a point of order 4 (two for each curve with a = -1; the other is its negative)
Q4(C) == <<ZRootMod(ZInv(C.a, C.p), C.p), Z0>>
\* the points that represent the neutral element
RKernel(C) == {TeId, <<Z0, C.p -- Z1>>} \cup (IF C.h = 8 THEN {Q4(C), TeNeg(C, Q4(C))} ELSE {})
RCoset(C, P) == {TeAdd(C, P, T) : T \in RKernel(C)}
RIsId(C, P) == P[1] = Z0 \/ (C.h = 8 /\ P[2] = Z0)
\* the root s of -a(1 - y)/(1 + y) for the representative with x and (cofactor 8) x y not negative
RS(C, P) ==
  LET p == C.p
      R == IF C.h = 8 /\ ZOdd((P[1] ** P[2]) %% p) THEN TeAdd(C, P, Q4(C)) ELSE P
      y == IF ZOdd(R[1]) THEN FNeg(R[2], p) ELSE R[2]
  IN IF RIsId(C, P) THEN Z0 ELSE Abs(C, ZRootMod(ZNeg(C.a) ** FDiv(Z1 -- y, Z1 ++ y, p), p))
REncode(C, P) == LEZ(RS(C, P), C.fs)
RDecodeZ(C, s) ==
  LET p == C.p
      as2 == C.a ** s ** s
      y == FDiv(Z1 ++ as2, Z1 -- as2, p)
      \* x^2 = 4 s^2 / (a d (1 + a s^2)^2 - (1 - a s^2)^2)
      den == ((C.a ** C.d ** FSq(Z1 ++ as2, p)) -- FSq(Z1 -- as2, p)) %% p
      x == FRootPar(FDiv(Z(4) ** s ** s, den, p), FALSE, p)
  IN IF ~ZLt(s, p) \/ ZOdd(s) THEN None
     ELSE IF (Z1 -- as2) %% p = Z0 \/ den = Z0 THEN None
     ELSE IF x = NoZ THEN None
     ELSE IF C.h = 8 /\ (y = Z0 \/ ZOdd((x ** y) %% p)) THEN None
     ELSE <<x, y>>
RDecode(C, b) == RDecodeZ(C, ZLE(b))
REnc(C, P) == IF P = None THEN None ELSE REncode(C, P)
(************************** from field elements ****************************)
\* K: the constants of the curve
RMap(C, K, u) ==
  LET p == C.p
      r == (K.qnr ** u ** u) %% p
      ns == (C.a ** (r ++ Z1) ** (C.d ++ C.a) ** (C.d -- C.a)) %% p
      w == (((C.d ** r) -- C.a) ** ((C.a ** r) -- C.d)) %% p
      q == FDiv(ns, w, p)
      sq == w # Z0 /\ r # Z0 /\ FSquare(q, p)     \* the second root is preferred for r = 0
      s == IF sq THEN Abs(C, ZRootMod(q, p)) ELSE IF w = Z0 THEN Z0 ELSE MinusAbs(C, ZRootMod(r ** q, p))
      c == IF sq THEN Z(-1) ELSE r
      nt == (c ** (r -- Z1) ** FSq(C.d ++ C.a, p)) -- w
      as2 == C.a ** s ** s
  IN <<FDiv(Z(2) ** s ** w, nt ** K.sad, p), FDiv(Z1 ++ as2, Z1 -- as2, p)>>
\* the numbers that are not negative and map to the element of P
RPre(C, K, P) ==
  LET p == C.p
      \* points (s, t) of the quartic over the representatives
      st(R) == LET s == ZRootMod(FDiv(R[2] -- Z1, C.a ** (R[2] ++ Z1), p), p)
                   t(s1) == FDiv(Z(2) ** s1, R[1] ** K.sad, p)
               IN IF R[1] = Z0 \/ s = NoZ THEN {} ELSE {<<s, t(s)>>, <<FNeg(s, p), t(FNeg(s, p))>>}
      cand == UNION {st(R) : R \in RCoset(C, P)}
      r(x) == LET as2 == C.a ** x[1] ** x[1]
                  W == (x[2] ++ Z1) ** FDiv(C.d -- C.a, C.d ++ C.a, p)
              IN IF ZOdd(x[1]) THEN FDiv(as2 ++ W, as2 -- W, p) ELSE FDiv(as2 -- W, as2 ++ W, p)
      rs == {r(x) : x \in cand} \cup {Z0, p -- Z1, FDiv(C.a, C.d, p), FDiv(C.d, C.a, p)}
      us == {FRootPar(FDiv(x, K.qnr, p), FALSE, p) : x \in rs} \ {NoZ}
  IN {u \in us : RMap(C, K, u) \in RCoset(C, P)}
\* uniform bytes: bits above the size of the field are ignored
RBytesU(C, b) == (ZLE(b) %% Z2(C.bits)) %% C.p
RHash(C, K, b) == TeAdd(C, RMap(C, K, RBytesU(C, Take(b, C.fs))), RMap(C, K, RBytesU(C, Drop(b, C.fs))))
=============================================================================
