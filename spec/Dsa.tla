-------------------------------- MODULE Dsa --------------------------------
(***************************************************************************)
(* FIPS 186-4 with nonces of RFC 6979 (over SHA-256, whatever made the     *)
(* digest).  Parameters <<p, q, g>>, public <<p, q, g, y>>, private        *)
(* <<p, q, g, y, x>>.  A refusal is None, an unusable key <<>>.            *)
(***************************************************************************)
EXTENDS Asn1, Drbg

None == <<-1>>
GroupSane(k) ==
  /\ ZBitLen(k[1]) \in 512..10000 /\ ZBitLen(k[2]) \in {160, 224, 256}
  /\ ZOdd(k[1]) /\ ZOdd(k[2])
  /\ ZLe(Z(2), k[3]) /\ ZLt(k[3], k[1] -- Z1)
PubSane(k) == GroupSane(k) /\ ZLe(Z(2), k[4]) /\ ZLt(k[4], k[1] -- Z1)
XSane(k) == ZSgn(k[5]) > 0 /\ ZLt(k[5], k[2])
PrivSane(k) == PubSane(k) /\ XSane(k)
GroupOk(k) == GroupSane(k) /\ ZPowMod(k[3], k[2], k[1]) = Z1
PubOk(k) == GroupOk(k) /\ PubSane(k) /\ ZPowMod(k[4], k[2], k[1]) = Z1
PrivOk(k) == PrivSane(k) /\ PubOk(k) /\ ZPowMod(k[3], k[5], k[1]) = k[4]
\* what parameter generation promises
QBits(bits) == IF bits = 1024 THEN 160 ELSE IF bits \in {2048, 3072} THEN 256 ELSE 0
Generated(k, bits) ==
  /\ GroupOk(k) /\ ZBitLen(k[1]) = bits /\ ZBitLen(k[2]) = QBits(bits)
  /\ ZPrime(k[1]) /\ ZPrime(k[2]) /\ (k[1] -- Z1) %% k[2] = Z0

Sane(x, ok(_)) == IF ~x.ok THEN <<>> ELSE IF ok(x.v) THEN x.v ELSE <<>>
\* written orders: p q g / y p q g / p q g y x
Roll(x) == IF x.ok THEN [x EXCEPT !.v = <<x.v[2], x.v[3], x.v[4], x.v[1]>>] ELSE x
ParamsDer(s) == ReadSeq(s, 3)
PubDer(s) == Roll(ReadSeq(s, 4))
PrivDer(s) == ReadVersioned(s, 5)
EncParams(k) == EncSeq(<<k[1], k[2], k[3]>>)
EncPub(k) == EncSeq(<<k[4], k[1], k[2], k[3]>>)
EncPriv(k) == EncVersioned(k)

QSize(k) == ByteLen(k[2])
\* the leftmost bits of the digest, below twice the order
Digest(m, q) ==
  LET b == Take(m, IF Len(m) > ByteLen(q) THEN ByteLen(q) ELSE Len(m))
      x == 8 * Len(b) - ZBitLen(q)
  IN (IF x > 0 THEN ZShr(ZBE(b), x) ELSE ZBE(b)) %% q
RECURSIVE Try(_, _, _)
Try(k, m, rng) ==
  LET q == k[2]
      g == HmGen(rng, QSize(k), <<>>)
      n == ZShr(ZBE(g[2]), 8 * QSize(k) - ZBitLen(q))
      r == ZPowMod(k[3], n, k[1]) %% q
      s == (((r ** k[5]) ++ m) ** ZInv(n, q)) %% q
  IN IF n = Z0 \/ ~ZLt(n, q) THEN Try(k, m, g[1])
     ELSE IF r = Z0 THEN Try(k, m, g[1])
     ELSE IF s = Z0 THEN Try(k, m, g[1])
     ELSE BEZ(r, QSize(k)) \o BEZ(s, QSize(k))
Sign(msg, key) ==
  LET k == Sane(PrivDer(key), PrivSane) IN
  IF k = <<>> THEN None
  ELSE LET m == Digest(msg, k[2])
       IN Try(k, m, HmInit("sha256", BEZ(k[5], QSize(k)) \o BEZ(m, QSize(k))))
Equation(m, r, s, k) ==
  LET q == k[2]
      w == ZInv(s, q)
      v == (ZPowMod(k[3], (m ** w) %% q, k[1]) ** ZPowMod(k[4], (r ** w) %% q, k[1])) %% k[1]
  IN w # Z0 /\ v %% q = r
Verify(msg, sig, key) ==
  LET k == Sane(PubDer(key), PubSane) IN
  IF k = <<>> THEN FALSE
  ELSE IF Len(sig) # 2 * QSize(k) THEN FALSE
  ELSE LET r == ZBE(Take(sig, QSize(k)))
           s == ZBE(Drop(sig, QSize(k)))
       IN /\ ZSgn(r) > 0 /\ ZLt(r, k[2]) /\ ZSgn(s) > 0 /\ ZLt(s, k[2])
          /\ Equation(Digest(msg, k[2]), r, s, k)
Derive(pub, priv) ==
  LET a == Sane(PubDer(pub), PubOk)
      b == Sane(PrivDer(priv), PrivSane)
  IN IF a = <<>> \/ b = <<>> THEN None
     ELSE IF Take(a, 3) # Take(b, 3) THEN None
     ELSE BEZ(ZPowMod(a[4], b[5], a[1]), ByteLen(a[1]))
\* signatures as DER and as two numbers of a fixed size (0: half the length)
ToDer(sig, size) ==
  LET n == IF size = 0 THEN Len(sig) \div 2 ELSE size IN
  IF n > 32 \/ Len(sig) # 2 * n THEN None
  ELSE EncSeq(<<ZBE(Take(sig, n)), ZBE(Drop(sig, n))>>)
FromDer(der, size) ==
  LET x == ReadSeq(der, 2) IN
  IF ~x.ok THEN None
  ELSE IF \E i \in {1, 2} : ByteLen(x.v[i]) > size \/ ByteLen(x.v[i]) > 32 THEN None
  ELSE BEZ(x.v[1], size) \o BEZ(x.v[2], size)
=============================================================================
