------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* Prime fields and the groups of points of elliptic curves over them.     *)
(*                                                                         *)
(* Short Weierstrass  y^2 = x^3 + a x + b       points <<x, y>>, Inf       *)
(* Twisted Edwards    a x^2 + y^2 = 1 + d x^2 y^2     points <<x, y>>      *)
(* Montgomery         B v^2 = u^3 + A u^2 + u   points <<u, v>>, Inf       *)
(*                                                                         *)
(* Coordinates are bigs reduced modulo p.  The multiplications, the ladder *)
(* and the square root are evaluated by java/EcOv.java; CurveTest compares *)
(* them with the definitions here (the operators named ...Def).            *)
(***************************************************************************)
EXTENDS Words, BigInt

NoZ == Z(-1)                               \* no such field element
FSquareDef(x, p) == \/ x %% p = Z0
                    \/ ZPowMod(x, (p -- Z1) // Z(2), p) = Z1
\* a root of x modulo the odd prime p, or NoZ
ZRootMod(x, p) == IF FSquareDef(x, p) THEN CHOOSE y \in Int : y >= 0 /\ y < p /\ (y ** y) %% p = x %% p ELSE NoZ
FSquare(x, p) == ZRootMod(x, p) # NoZ
FDiv(x, y, p) == (x ** ZInv(y %% p, p)) %% p       \* 0 for a zero denominator
FNeg(x, p) == ZNeg(x) %% p
FSq(x, p) == (x ** x) %% p
\* the root of the given parity (0 has one root only, whatever the parity asked for)
FRootPar(x, odd, p) == LET y == ZRootMod(x, p) IN
  IF y = NoZ THEN NoZ ELSE IF ZOdd(y) = odd THEN y ELSE FNeg(y, p)

Inf == <<>>

(************************** short Weierstrass curves ***********************)
EcRhs(C, x) == ((x ** x ** x) ++ (C.a ** x) ++ C.b) %% C.p
EcOn(C, P) == FSq(P[2], C.p) = EcRhs(C, P[1])
EcNeg(C, P) == IF P = Inf THEN Inf ELSE <<P[1], FNeg(P[2], C.p)>>
EcSlope(p, l, P, Q) ==
  LET x == ((l ** l) -- P[1] -- Q[1]) %% p
  IN <<x, ((l ** (P[1] -- x)) -- P[2]) %% p>>
EcAddF(p, a, P, Q) ==
  IF P = Inf THEN Q
  ELSE IF Q = Inf THEN P
  ELSE IF P[1] # Q[1] THEN EcSlope(p, FDiv(Q[2] -- P[2], Q[1] -- P[1], p), P, Q)
  ELSE IF P[2] # Q[2] \/ P[2] = Z0 THEN Inf
  ELSE EcSlope(p, FDiv((Z(3) ** P[1] ** P[1]) ++ a, Z(2) ** P[2], p), P, P)
RECURSIVE EcMulDef(_, _, _, _)
EcMulDef(p, a, k, P) ==
  IF k = Z0 THEN Inf
  ELSE LET h == EcMulDef(p, a, k // Z(2), P)
           d == EcAddF(p, a, h, h)
       IN IF ZOdd(k) THEN EcAddF(p, a, d, P) ELSE d
EcMulF(p, a, k, P) == EcMulDef(p, a, k, P)
EcAdd(C, P, Q) == EcAddF(C.p, C.a, P, Q)
EcMul(C, k, P) == EcMulF(C.p, C.a, k %% C.n, P)
\* the points with x-coordinate x, chosen by parity of y; Inf if there are none
EcFromX(C, x, odd) == LET y == FRootPar(EcRhs(C, x), odd, C.p) IN
  IF ~ZLt(x, C.p) \/ y = NoZ THEN Inf ELSE <<x, y>>

\* SEC 1: compressed, uncompressed and hybrid encodings; Inf if not an encoding of a finite point
EcDecode(C, s) ==
  LET x == ZBE(SubSeq(s, 2, C.fs + 1))
      y == ZBE(SubSeq(s, C.fs + 2, 2 * C.fs + 1))
  IN IF Len(s) = C.fs + 1 THEN
       IF s[1] \in {2, 3} THEN EcFromX(C, x, s[1] = 3) ELSE Inf
     ELSE IF Len(s) = 2 * C.fs + 1 THEN
       IF s[1] \in {4, 6, 7} THEN
         IF /\ ZLt(x, C.p) /\ ZLt(y, C.p) /\ EcOn(C, <<x, y>>)
            /\ (s[1] # 4 => ((s[1] = 7) <=> ZOdd(y)))
         THEN <<x, y>> ELSE Inf
       ELSE Inf
     ELSE Inf
EcEncode(C, P, compact) ==
  IF compact THEN <<IF ZOdd(P[2]) THEN 3 ELSE 2>> \o BEZ(P[1], C.fs)
  ELSE <<4>> \o BEZ(P[1], C.fs) \o BEZ(P[2], C.fs)

\* curves of SEC 2 and FIPS 186-4; hash: for RFC 6979; xof: for Schnorr signatures; z: for mapping to the curve
Wei(p, n, a, b, x, y, hash, xof, z) ==
  [p |-> p, n |-> n, a |-> a %% p, b |-> b, g |-> <<x, y>>, fs |-> CeilDiv(ZBitLen(p), 8), ss |-> CeilDiv(ZBitLen(n), 8),
   hash |-> hash, xof |-> xof, z |-> z %% p]
WeiCurves ==
  [p192 |-> Wei(Z2(192) -- Z2(64) -- Z1, ZHex("ffffffffffffffffffffffff99def836146bc9b1b4d22831"), Z(-3),
      ZHex("64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1"),
      ZHex("188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012"),
      ZHex("07192b95ffc8da78631011ed6b24cdd573f977a11e794811"), "sha256", "sha256", Z(-5)),
   p224 |-> Wei(Z2(224) -- Z2(96) ++ Z1, ZHex("ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"), Z(-3),
      ZHex("b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4"),
      ZHex("b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"),
      ZHex("bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"), "sha256", "sha256", Z(31)),
   p256 |-> Wei(Z2(256) -- Z2(224) ++ Z2(192) ++ Z2(96) -- Z1,
      ZHex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), Z(-3),
      ZHex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
      ZHex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
      ZHex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"), "sha256", "sha256", Z(-10)),
   p384 |-> Wei(Z2(384) -- Z2(128) -- Z2(96) ++ Z2(32) -- Z1,
      ZHex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"), Z(-3),
      ZHex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
      ZHex("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
      ZHex("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
      "sha384", "sha384", Z(-12)),
   p521 |-> Wei(Z2(521) -- Z1,
      ZHex("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"), Z(-3),
      ZHex("0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
      ZHex("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
      ZHex("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
      "sha512", "shake256", Z(-4)),
   secp256k1 |-> Wei(Z2(256) -- Z2(32) -- Z(977),
      ZHex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), Z0, Z(7),
      ZHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
      ZHex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), "sha256", "sha256", Z1)]

(*************************** twisted Edwards curves ************************)
TeId == <<Z0, Z1>>
TeOn(C, P) == LET xx == FSq(P[1], C.p)
                  yy == FSq(P[2], C.p)
  IN ((C.a ** xx) ++ yy) %% C.p = (Z1 ++ (C.d ** xx ** yy)) %% C.p
TeNeg(C, P) == <<FNeg(P[1], C.p), P[2]>>
\* complete: d is not a square and a is one
TeAddF(p, a, d, P, Q) ==
  LET m == (d ** P[1] ** Q[1] ** P[2] ** Q[2]) %% p
  IN <<FDiv((P[1] ** Q[2]) ++ (P[2] ** Q[1]), Z1 ++ m, p), FDiv((P[2] ** Q[2]) -- (a ** P[1] ** Q[1]), Z1 -- m, p)>>
RECURSIVE TeMulDef(_, _, _, _, _)
TeMulDef(p, a, d, k, P) ==
  IF k = Z0 THEN TeId
  ELSE LET h == TeMulDef(p, a, d, k // Z(2), P)
           e == TeAddF(p, a, d, h, h)
       IN IF ZOdd(k) THEN TeAddF(p, a, d, e, P) ELSE e
TeMulF(p, a, d, k, P) == TeMulDef(p, a, d, k, P)
TeAdd(C, P, Q) == TeAddF(C.p, C.a, C.d, P, Q)
TeSub(C, P, Q) == TeAdd(C, P, TeNeg(C, Q))
TeMul(C, k, P) == IF ZSgn(k) < 0 THEN TeNeg(C, TeMulF(C.p, C.a, C.d, ZNeg(k), P)) ELSE TeMulF(C.p, C.a, C.d, k, P)
\* points with a given y: x^2 = (y^2 - 1) / (d y^2 - a); the denominator is never zero
TeXX(C, y) == FDiv((y ** y) -- Z1, (C.d ** y ** y) -- C.a, C.p)

(***************************** Montgomery curves ***************************)
MtRhs(C, u) == ((u ** u ** u) ++ (C.A ** u ** u) ++ u) %% C.p
MtOn(C, P) == FSq(P[2], C.p) = MtRhs(C, P[1])              \* B = 1
MtNeg(C, P) == IF P = Inf THEN Inf ELSE <<P[1], FNeg(P[2], C.p)>>
MtAdd(C, P, Q) ==
  LET p == C.p
      f(l) == LET u == ((l ** l) -- C.A -- P[1] -- Q[1]) %% p IN <<u, ((l ** (P[1] -- u)) -- P[2]) %% p>>
  IN IF P = Inf THEN Q
     ELSE IF Q = Inf THEN P
     ELSE IF P[1] # Q[1] THEN f(FDiv(Q[2] -- P[2], Q[1] -- P[1], p))
     ELSE IF P[2] # Q[2] \/ P[2] = Z0 THEN Inf
     ELSE f(FDiv((Z(3) ** P[1] ** P[1]) ++ (Z(2) ** C.A ** P[1]) ++ Z1, Z(2) ** P[2], p))
RECURSIVE MtMul(_, _, _)
MtMul(C, k, P) ==
  IF k = Z0 THEN Inf
  ELSE LET h == MtMul(C, k // Z(2), P)
           d == MtAdd(C, h, h)
       IN IF ZOdd(k) THEN MtAdd(C, d, P) ELSE d
\* RFC 7748: the ladder on u-coordinates, result x2 / z2 (0 when z2 is 0)
LadderDef(p, A, bits, k, u) ==
  LET a24 == (A -- Z(2)) // Z(4)
      step(s, i) ==
        LET sw == ZBit(k, bits - 1 - i) = 1
            x2 == IF sw THEN s[3] ELSE s[1]
            z2 == IF sw THEN s[4] ELSE s[2]
            x3 == IF sw THEN s[1] ELSE s[3]
            z3 == IF sw THEN s[2] ELSE s[4]
            a == x2 ++ z2
            b == x2 -- z2
            aa == FSq(a, p)
            bb == FSq(b, p)
            e == aa -- bb
            da == (x3 -- z3) ** a
            cb == (x3 ++ z3) ** b
            n == <<(aa ** bb) %% p, (e ** (aa ++ (a24 ** e))) %% p, FSq(da ++ cb, p), (u ** FSq(da -- cb, p)) %% p>>
        IN IF sw THEN <<n[3], n[4], n[1], n[2]>> ELSE n
      r == Iter(step, <<Z1, Z0, u, Z1>>, bits)
  IN FDiv(r[1], r[2], p)
Ladder(p, A, bits, k, u) == LadderDef(p, A, bits, k, u)
=============================================================================
