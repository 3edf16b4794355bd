------------------------------ MODULE Schnorr ------------------------------
(***************************************************************************)
(* Schnorr signatures over short Weierstrass curves: the legacy scheme of  *)
(* the 2018/2019 drafts of bip-schnorr (nonce point with square y, full    *)
(* public keys) and BIP-340 (even y, x-only public keys).  For curves      *)
(* other than secp256k1 the hash is the curve's.                           *)
(***************************************************************************)
EXTENDS Ecdsa

\* hash to a scalar: as many bytes as scalars have, cut to the bits of the order
HashBytes(C, m) == Take(HashFX(C.xof, C.ss, m), C.ss)
HashScalar(C, m) == (ZBE(HashBytes(C, m)) %% Z2(ZBitLen(C.n))) %% C.n
EvenY(P) == ~ZOdd(P[2])
\* negated unless good
Fix(C, k, good) == IF good THEN k ELSE (C.n -- k) %% C.n

(************************************ legacy *******************************)
Supported(C) == C.p %% Z(4) = Z(3)
LegacyE(C, r, A, msg) == HashScalar(C, BEZ(r, C.fs) \o EcEncode(C, A, TRUE) \o msg)
LegacySign(C, a, msg) ==
  LET k == HashScalar(C, BEZ(a, C.ss) \o msg)
      R == EcMul(C, k, C.g)
      e == LegacyE(C, R[1], EcMul(C, a, C.g), msg)
  IN IF k = Z0 THEN None
     ELSE BEZ(R[1], C.fs) \o BEZ((Fix(C, k, FSquare(R[2], C.p)) ++ (e ** a)) %% C.n, C.ss)
\* s G = R + e A with x(R) = r and a rule on y
SchnorrEq(C, r, s, e, A, rule(_)) ==
  LET R == EcAdd(C, EcMul(C, s, C.g), EcMul(C, ZNeg(e), A))
  IN R # Inf /\ R[1] = r /\ rule(R)
LegacyVerify(C, msg, sig, A) ==
  LET r == ZBE(Take(sig, C.fs))
      s == ZBE(Drop(sig, C.fs))
  IN IF A = Inf \/ ~ZLt(r, C.p) \/ ~ZLt(s, C.n) THEN FALSE
     ELSE SchnorrEq(C, r, s, LegacyE(C, r, A, msg), A, LAMBDA R : FSquare(R[2], C.p))

(*********************************** BIP-340 *******************************)
TagPrefix(C, tag) ==
  LET half == HashBlock(C.xof) \div 2
      h == IF HashSize(C.xof) = half THEN HashF(C.xof, Ascii(tag)) ELSE HashFX("shake256", half, Ascii(tag))
  IN h \o h
Tagged(C, tag, m) == TagPrefix(C, tag) \o m
\* the point that an x-only key stands for
XPoint(C, b) == EcFromX(C, ZBE(b), FALSE)
XOnly(C, P) == BEZ(P[1], C.fs)
XKey(C, P) == IF P = Inf THEN None ELSE XOnly(C, P)
\* the private key of the even point
EvenKey(C, a) == Fix(C, a, EvenY(EcMul(C, a, C.g)))
BipE(C, r, x, msg) == HashScalar(C, Tagged(C, "BIP0340/challenge", r \o x \o msg))
\* aux: 32 bytes, or None
BipSign(C, a, msg, aux) ==
  LET A == EcMul(C, a, C.g)
      d == EvenKey(C, a)
      t == IF aux = None THEN BEZ(d, C.ss) ELSE BXor(BEZ(d, C.ss), HashBytes(C, Tagged(C, "BIP0340/aux", aux)))
      k == HashScalar(C, Tagged(C, "BIP0340/nonce", t \o XOnly(C, A) \o msg))
      R == EcMul(C, k, C.g)
      e == BipE(C, XOnly(C, R), XOnly(C, A), msg)
  IN IF k = Z0 THEN None ELSE XOnly(C, R) \o BEZ((Fix(C, k, EvenY(R)) ++ (e ** d)) %% C.n, C.ss)
BipVerify(C, msg, sig, x) ==
  LET r == ZBE(Take(sig, C.fs))
      s == ZBE(Drop(sig, C.fs))
      A == XPoint(C, x)
  IN IF A = Inf \/ ~ZLt(r, C.p) \/ ~ZLt(s, C.n) THEN FALSE
     ELSE SchnorrEq(C, r, s, BipE(C, Take(sig, C.fs), x, msg), A, EvenY)
\* a result with its parity
XTweak(C, P) == IF P = Inf THEN <<None, 0>> ELSE <<XOnly(C, P), IF EvenY(P) THEN 0 ELSE 1>>
XSum(C, xs) ==
  IF \E i \in 1..Len(xs) : XPoint(C, xs[i]) = Inf THEN Inf
  ELSE Fold(LAMBDA P, x : EcAdd(C, P, XPoint(C, x)), Inf, xs)
=============================================================================
