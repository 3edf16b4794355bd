------------------------------- MODULE Ecdsa -------------------------------
(***************************************************************************)
(* ECDSA (SEC 1, FIPS 186-4) with nonces of RFC 6979 and low s, recovery   *)
(* of public keys, signature encodings, and operations on keys.  C is a    *)
(* curve.  A refusal is None; numbers are bigs.                            *)
(***************************************************************************)
EXTENDS Curve, Asn1, Drbg

None == <<-1>>
\* the leftmost bits of the digest
DigestZ(C, m) ==
  LET b == Take(m, IF Len(m) > C.ss THEN C.ss ELSE Len(m))
      x == 8 * Len(b) - ZBitLen(C.n)
  IN (IF x > 0 THEN ZShr(ZBE(b), x) ELSE ZBE(b)) %% C.n
High(C, s) == ZGt(s, C.n // Z(2))
LowS(C, s) == IF High(C, s) THEN C.n -- s ELSE s
\* signature of m by key a with nonce k, and the hint: bit 1 when x was not below n, bit 0 the parity of y
SigWith(C, a, m, k) ==
  LET R == EcMul(C, k, C.g)
      r == R[1] %% C.n
      s == (((r ** a) ++ m) ** ZInv(k, C.n)) %% C.n
      h == (IF ZLt(R[1], C.n) THEN 0 ELSE 2) + (IF ZOdd(R[2]) # High(C, s) THEN 1 ELSE 0)
  IN <<r, LowS(C, s), h>>
RECURSIVE TryNonce(_, _, _, _, _)
\* the first usable nonce, after passing over skip of them
TryNonce(C, a, m, rng, skip) ==
  LET g == HmGen(rng, C.ss, <<>>)
      k == ZShr(ZBE(g[2]), 8 * C.ss - ZBitLen(C.n))
  IN IF k = Z0 \/ ~ZLt(k, C.n) THEN TryNonce(C, a, m, g[1], IF skip > 0 THEN skip - 1 ELSE 0)
     ELSE IF skip > 0 THEN TryNonce(C, a, m, g[1], skip - 1)
     ELSE LET t == SigWith(C, a, m, k) IN IF t[1] = Z0 THEN TryNonce(C, a, m, g[1], 0) ELSE t
GoodScalar(C, a) == ZSgn(a) > 0 /\ ZLt(a, C.n)
SignZ(C, a, m, skip) == TryNonce(C, a, m, HmInit(C.hash, BEZ(a, C.ss) \o BEZ(m, C.ss)), skip)
EcEquation(C, m, r, s, A) ==
  LET w == ZInv(s, C.n)
      R == EcAdd(C, EcMul(C, m ** w, C.g), EcMul(C, r ** w, A))
  IN R # Inf /\ R[1] %% C.n = r
\* A = Inf stands for an invalid key
VerifyZ(C, m, r, s, A) ==
  IF A = Inf \/ ~GoodScalar(C, r) \/ ~GoodScalar(C, s) \/ High(C, s) THEN FALSE ELSE EcEquation(C, m, r, s, A)
RecoverZ(C, m, r, s, hint) ==
  LET x == IF hint >= 2 THEN r ++ C.n ELSE r
      R == EcFromX(C, x, hint % 2 = 1)
      w == ZInv(r, C.n)
  IN IF ~GoodScalar(C, r) \/ ~GoodScalar(C, s) \/ High(C, s) THEN Inf
     ELSE IF R = Inf THEN Inf
     ELSE EcAdd(C, EcMul(C, s ** w, R), EcMul(C, ZNeg(m ** w), C.g))

(*************************** signature encodings ***************************)
Two(C, r, s) == BEZ(r, C.ss) \o BEZ(s, C.ss)
SigR(C, sig) == ZBE(Take(sig, C.ss))
SigS(C, sig) == ZBE(Drop(sig, C.ss))
InRange(C, r, s) == ZLt(r, C.n) /\ ZLt(s, C.n)
SigToDer(C, sig) == IF InRange(C, SigR(C, sig), SigS(C, sig)) THEN EncSeq(<<SigR(C, sig), SigS(C, sig)>>) ELSE None
SigFromDer(C, der) ==
  LET x == ReadSeq(der, 2) IN
  IF ~x.ok THEN None ELSE IF InRange(C, x.v[1], x.v[2]) THEN Two(C, x.v[1], x.v[2]) ELSE None
\* lax: lengths in any form of at most 2^32 - 1 with the outer one ignored, integers taken as unsigned with any number
\* of leading zeros, anything after them ignored
LaxSize(s, i) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] < 128 THEN Good(Z(s[i]), i + 1)
  ELSE LET n == s[i] - 128
           f(x, j) == IF x = NoZ THEN NoZ ELSE IF ~ZLt(x, Z2(24)) THEN NoZ ELSE (Z(256) ** x) ++ Z(s[i + 1 + j])
       IN IF i + n > Len(s) THEN Bad
          ELSE LET v == Iter(f, Z0, n) IN IF v = NoZ THEN Bad ELSE Good(v, i + n + 1)
LaxInt(s, i) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] # 2 THEN Bad
  ELSE LET z == LaxSize(s, i + 1) IN
    IF ~z.ok THEN Bad
    ELSE IF ZGt(z.v, Z(Len(s) + 1 - z.i)) THEN Bad
    ELSE Good(ZBE(SubSeq(s, z.i, z.i + ZInt(z.v) - 1)), z.i + ZInt(z.v))
SigFromLax(C, s) ==
  IF Len(s) = 0 THEN None
  ELSE IF s[1] # 48 THEN None
  ELSE LET z == LaxSize(s, 2) IN
    IF ~z.ok THEN None
    ELSE LET r == LaxInt(s, z.i) IN
      IF ~r.ok THEN None
      ELSE LET t == LaxInt(s, r.i) IN
        IF ~t.ok THEN None
        ELSE IF InRange(C, r.v, t.v) THEN Two(C, r.v, t.v) ELSE None

(**************************** operations on keys ***************************)
\* a fixed-size scalar, or NoZ if it is not below the order
Scalar(C, b) == LET a == ZBE(b) IN IF ZLt(a, C.n) THEN a ELSE NoZ
Nonzero(a) == IF a = Z0 THEN NoZ ELSE a
Key(C, b) == Nonzero(Scalar(C, b))
KeyBytes(C, a) == IF a = NoZ THEN None ELSE BEZ(a, C.ss)
Point(C, P, compact) == IF P = Inf THEN None ELSE EcEncode(C, P, compact)
\* sum of the encoded points; None if any is invalid, Inf possible
SumPoints(C, ps) ==
  IF \E i \in 1..Len(ps) : EcDecode(C, ps[i]) = Inf THEN Inf
  ELSE Fold(LAMBDA P, s : EcAdd(C, P, EcDecode(C, s)), Inf, ps)
\* coordinates given separately, any number of leading zeros; y may be left out
ImportXY(C, x, y, odd) ==
  LET u == ZBE(x)
      v == ZBE(y)
  IN IF x = <<>> \/ ~ZLt(u, C.p) THEN Inf
     ELSE IF y = <<>> THEN EcFromX(C, u, odd)
     ELSE IF ~ZLt(v, C.p) THEN Inf
     ELSE IF EcOn(C, <<u, v>>) THEN <<u, v>> ELSE Inf
=============================================================================
