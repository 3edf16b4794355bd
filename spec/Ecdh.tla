-------------------------------- MODULE Ecdh -------------------------------
(***************************************************************************)
(* Key exchange with u-coordinates (RFC 7748) and the conversion of public *)
(* keys between Montgomery and Edwards form.                               *)
(*                                                                         *)
(* conv: "bir"  u = (1 + y) / (1 - y)          (RFC 7748, 4.1)             *)
(*       "inv"  u = (y + 1) / (y - 1)                                      *)
(*       "iso"  u = y^2 / x^2, an isogeny of degree four (RFC 7748, 4.2)   *)
(***************************************************************************)
EXTENDS Eddsa
XClamp(C, b) == ClampZ(C, ZLE(b))
\* a coordinate: bits above the field size are ignored, the rest is reduced
XU(C, b) == (ZLE(b) %% Z2(C.bits)) %% C.p
XMul(C, k, u) == Ladder(C.p, C.A, C.bits, k, u)
XDh(C, pub, priv) == LET s == XMul(C, XClamp(C, priv), XU(C, pub))
                     IN IF s = Z0 THEN None ELSE LEZ(s, C.fs)
\* the points with a given u; None on the twist
MtFromU(C, u, odd) == LET v == FRootPar(MtRhs(C, u), odd, C.p)
                      IN IF v = NoZ THEN None ELSE <<u, v>>
MtSmall(C, P) == P # Inf /\ MtMul(C, Z(C.h), P) = Inf
MtTorsion(C, P) == MtMul(C, C.n, P) # Inf
(******************************* conversions *******************************)
Conv(name) == IF name \in {"ed25519", "x25519"} THEN "bir" ELSE IF name \in {"ed448", "x448"} THEN "iso" ELSE "inv"
\* NoZ for the neutral element, which has no u-coordinate
EdToU(E, conv, P) ==
  LET p == E.p
      x == P[1]
      y == P[2]
  IN IF P = TeId THEN NoZ
     ELSE IF x = Z0 THEN Z0
     ELSE IF conv = "bir" THEN FDiv(Z1 ++ y, Z1 -- y, p)
     ELSE IF conv = "inv" THEN FDiv(y ++ Z1, y -- Z1, p)
     ELSE FDiv(y ** y, x ** x, p)
\* the isogeny back to the Edwards curve
IsoBack(p, P) ==
  LET u == P[1]
      v == P[2]
      uu == FSq(u, p)
      vv == FSq(v, p)
      u3 == uu ** u
      u5 == u3 ** uu
      xn == Z(4) ** v ** (uu -- Z1)
      xd == (uu ** uu) -- (Z(2) ** uu) ++ (Z(4) ** vv) ++ Z1
      yn == ZNeg(u5 -- (Z(2) ** u3) -- (Z(4) ** u ** vv) ++ u)
      yd == u5 -- (Z(2) ** uu ** vv) -- (Z(2) ** u3) -- (Z(2) ** vv) ++ u
  IN IF P = Inf \/ u = Z0 THEN TeId ELSE <<FDiv(xn, xd, p), FDiv(yn, yd, p)>>
Par(p, P, odd) == IF ZOdd(P[1]) = odd THEN P ELSE <<FNeg(P[1], p), P[2]>>
\* the Edwards point with the coordinate u and the parity of x: for "iso" the one of prime order
\* whose image is P without its component of small order; None if u is on the twist
UToEd(M, E, conv, u, odd) ==
  LET p == M.p
      P == MtFromU(M, u, FALSE)
      y == IF conv = "bir" THEN FDiv(u -- Z1, u ++ Z1, p) ELSE FDiv(u ++ Z1, u -- Z1, p)
      \* multiplying by 4 and then 1/16 modulo the order undoes both isogenies
      Q == MtMul(M, (Z(4) ** ZInv(Z(16), M.n)), P)
  IN IF P = None THEN None
     ELSE IF conv = "iso" THEN Par(p, IsoBack(p, Q), odd)
     ELSE Par(p, <<ZRootMod(TeXX(E, y), p), y>>, odd)
MtImport(C, x, y) ==
  LET u == ZLE(x)
      v == ZLE(y)
  IN IF x = <<>> \/ ~ZLt(u, C.p) \/ ~ZLt(v, C.p) THEN None
     ELSE IF y = <<>> THEN (IF MtFromU(C, u, FALSE) = None THEN None ELSE LEZ(u, C.fs))
     ELSE IF MtOn(C, <<u, v>>) THEN LEZ(u, C.fs) ELSE None
=============================================================================
