-------------------------------- MODULE Rsa --------------------------------
(***************************************************************************)
(* RFC 8017 with the library's limits.  Keys are tuples of integers:       *)
(* public <<n, e>>, private <<n, e, d, p, q, dp, dq, qi>>.  A refusal is   *)
(* None.  Randomness comes from HMAC_DRBG(SHA-256) seeded by the caller.   *)
(***************************************************************************)
EXTENDS Asn1, Drbg

None == <<-1>>
MinBits == 512
MaxBits == 16384
MaxExpBits == 33
Lcm(a, b) == (a ** b) // ZGcd(a, b)

PubOk(k) ==
  LET n == k[1]
      e == k[2]
  IN /\ ZBitLen(n) \in MinBits..MaxBits
     /\ ZLe(Z(3), e) /\ ZBitLen(e) <= MaxExpBits
     /\ ZOdd(n) /\ ZOdd(e)
PrivOk(k) ==
  LET n == k[1]
      e == k[2]
      d == k[3]
      p == k[4]
      q == k[5]
      p1 == p -- Z1
      q1 == q -- Z1
  IN /\ PubOk(<<n, e>>)
     /\ \A i \in 3..8 : ZBitLen(k[i]) \in 1..MaxBits
     /\ ZLe(Z(3), p) /\ ZOdd(p) /\ ZLe(Z(3), q) /\ ZOdd(q)
     /\ p # q /\ n = p ** q
     /\ ZLe(Z(2), d) /\ ZLt(d, p1 ** q1)
     /\ (e ** d) %% Lcm(p1, q1) = Z1
     /\ k[6] = d %% p1 /\ k[7] = d %% q1
     /\ ZLe(Z(2), k[8]) /\ ZLt(k[8], p) /\ (q ** k[8]) %% p = Z1
\* what key generation promises
Generated(k, bits, e) ==
  /\ PrivOk(k) /\ k[2] = e
  /\ ZPrime(k[4]) /\ ZPrime(k[5])
  /\ ZBitLen(k[1]) = bits /\ ZBitLen(k[4]) = CeilDiv(bits, 2) /\ ZBitLen(k[5]) = bits \div 2
  /\ ZLt(k[5], k[4])
  /\ ZLt(k[3], Lcm(k[4] -- Z1, k[5] -- Z1))
GenArgsOk(bits, e) == bits \in MinBits..MaxBits /\ ZLe(Z(3), e) /\ ZBitLen(e) <= MaxExpBits /\ ZOdd(e)

\* keys rebuilt from part of their numbers; <<>> if that is impossible
FromPqe(p0, q0, e) ==
  LET p == IF ZLt(p0, q0) THEN q0 ELSE p0
      q == IF ZLt(p0, q0) THEN p0 ELSE q0
      n == p ** q
      p1 == p -- Z1
      q1 == q -- Z1
  IN IF p = q \/ ZLt(q, Z(3)) \/ ~ZOdd(p) \/ ~ZOdd(q) \/ ~PubOk(<<n, e>>) THEN <<>>
     ELSE LET d == ZInv(e, Lcm(p1, q1))
              qi == ZInv(q, p)
          IN IF d = Z0 \/ qi = Z0 THEN <<>>
             ELSE <<n, e, d, p, q, d %% p1, d %% q1, qi>>
FromPqd(p, q, d) ==
  IF ZLt(p, Z(3)) \/ ZLt(q, Z(3)) \/ ~ZOdd(p) \/ ~ZOdd(q) \/ ZBitLen(p) > MaxBits \/ ZBitLen(q) > MaxBits THEN <<>>
  ELSE LET p1 == p -- Z1
           q1 == q -- Z1
       IN IF ZLt(d, Z(2)) \/ ZLe(p1 ** q1, d) THEN <<>>
          ELSE LET e == ZInv(d, Lcm(p1, q1)) IN IF e = Z0 THEN <<>> ELSE FromPqe(p, q, e)
NedOk(n, e, d) == PubOk(<<n, e>>) /\ ZLe(Z(2), d) /\ ZBitLen(d) <= MaxBits

PubKey(s) == LET x == ReadSeq(s, 2) IN IF ~x.ok THEN <<>> ELSE IF PubOk(x.v) THEN x.v ELSE <<>>
PrivKey(s) == LET x == ReadVersioned(s, 8) IN IF ~x.ok THEN <<>> ELSE IF PrivOk(x.v) THEN x.v ELSE <<>>
EncPub(k) == EncSeq(k)
EncPriv(k) == EncVersioned(k)

KLen(k) == ByteLen(k[1])
Public(k, b) == BEZ(ZPowMod(ZBE(b), k[2], k[1]), KLen(k))      \* b below n
Private(k, b) == BEZ(ZPowMod(ZBE(b), k[3], k[1]), KLen(k))
Below(k, b) == ZLt(ZBE(b), k[1])

----------------------------------------------------------------------------
\* PKCS #1 v1.5
Oid(h) ==
  CASE h \in {"blake2b160", "blake2b256", "blake2b384", "blake2b512"} -> Hex("2b06010401") \o Hex("8d3a0c0201") \o <<HashSize(h) \div 4>>
    [] h \in {"blake2s128", "blake2s160", "blake2s224", "blake2s256"} -> Hex("2b06010401") \o Hex("8d3a0c0202") \o <<HashSize(h) \div 4>>
    [] h = "gost94" -> Hex("2a8503020214")
    [] h = "md2" -> Hex("2a864886f70d0202") [] h = "md4" -> Hex("2a864886f70d0204") [] h = "md5" -> Hex("2a864886f70d0205")
    [] h = "ripemd160" -> Hex("2b24030201") [] h = "sha1" -> Hex("2b0e03021a")
    [] h = "sha224" -> Hex("6086480165030402") \o <<4>> [] h = "sha256" -> Hex("6086480165030402") \o <<1>>
    [] h = "sha384" -> Hex("6086480165030402") \o <<2>> [] h = "sha512" -> Hex("6086480165030402") \o <<3>>
    [] h = "sha3_224" -> Hex("6086480165030402") \o <<7>> [] h = "sha3_256" -> Hex("6086480165030402") \o <<8>>
    [] h = "sha3_384" -> Hex("6086480165030402") \o <<9>> [] h = "sha3_512" -> Hex("6086480165030402") \o <<10>>
    [] h = "shake128" -> Hex("6086480165030402") \o <<11>> [] h = "shake256" -> Hex("6086480165030402") \o <<12>>
    [] h = "whirlpool" -> Hex("28cf06030037")
    [] OTHER -> <<>>                                            \* no registered identifier: the bare digest is signed
HashKnown(h) == HashSize(h) > 0
DigestInfo(h, m) ==
  LET o == Oid(h) IN
  IF Len(o) = 0 THEN m
  ELSE LET alg == <<6, Len(o)>> \o o \o <<5, 0>>
       IN <<48, Len(alg) + Len(m) + 4, 48, Len(alg)>> \o alg \o <<4, Len(m)>> \o m
Emsa15(h, m, klen) ==
  LET t == DigestInfo(h, m) IN
  IF ~(h = "none" \/ HashKnown(h)) \/ (h # "none" /\ Len(m) # HashSize(h)) \/ klen < Len(t) + 11 THEN None
  ELSE <<0, 1>> \o Rep(255, klen - Len(t) - 3) \o <<0>> \o t
Sign(h, m, key) ==
  LET k == PrivKey(key) IN
  IF k = <<>> THEN None
  ELSE LET em == Emsa15(h, m, KLen(k)) IN IF em = None THEN None ELSE Private(k, em)
Verify(h, m, sig, key) ==
  LET k == PubKey(key) IN
  IF k = <<>> THEN FALSE
  ELSE LET em == Emsa15(h, m, KLen(k)) IN
       em # None /\ Len(sig) = KLen(k) /\ Below(k, sig) /\ Public(k, sig) = em

\* nonzero bytes for the padding: zero bytes are redrawn one at a time
RECURSIVE Redraw(_)
Redraw(rng) == LET g == HmGen(rng, 1, <<>>) IN IF g[2][1] = 0 THEN Redraw(g[1]) ELSE g
NonZero(rng, n) ==
  LET g == HmGen(rng, n, <<>>)
      f(x, b) == IF b # 0 THEN <<x[1], Append(x[2], b)>> ELSE LET y == Redraw(x[1]) IN <<y[1], x[2] \o y[2]>>
  IN Fold(f, <<g[1], <<>>>>, g[2])[2]
Encrypt(m, key, ent) ==
  LET k == PubKey(key) IN
  IF k = <<>> THEN None
  ELSE IF Len(m) > KLen(k) - 11 THEN None
  ELSE Public(k, <<0, 2>> \o NonZero(HmInit("sha256", ent), KLen(k) - Len(m) - 3) \o <<0>> \o m)
RECURSIVE FirstZero(_, _)
FirstZero(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 0 THEN i ELSE FirstZero(s, i + 1)
Unpad15(em) ==
  LET z == FirstZero(em, 3) IN
  IF em[1] # 0 \/ em[2] # 2 \/ z < 11 THEN None ELSE Drop(em, z)
Decrypt(c, key) ==
  LET k == PrivKey(key) IN
  IF k = <<>> THEN None
  ELSE IF Len(c) # KLen(k) \/ ~Below(k, c) THEN None ELSE Unpad15(Private(k, c))
\* a key of fixed size; an ill-formed block yields random bytes instead
DecryptKey(c, n, key, ent) ==
  LET k == PrivKey(key) IN
  IF k = <<>> THEN None
  ELSE IF Len(c) # KLen(k) \/ KLen(k) < n + 11 \/ ~Below(k, c) THEN None
  ELSE LET m == Unpad15(Private(k, c))
       IN IF m # None /\ Len(m) = n THEN m
          ELSE HmGen(HmGen(HmInit("sha256", ent), 32, <<>>)[1], n, <<>>)[2]

----------------------------------------------------------------------------
Mgf1(h, seed, n) == Take(Iter(LAMBDA x, i : x \o HashF(h, seed \o IntBE(i, 4)), <<>>, CeilDiv(n, HashSize(h))), n)
\* clears the bits of the first byte above the given number of bits
TopMask(b, bits) == <<b[1] % 2^(8 - (8 * Len(b) - bits))>> \o Drop(b, 1)
\* PSS
PssHash(h, m, salt) == HashF(h, Zeros(8) \o m \o salt)
PssEncode(h, m, bits, salt) ==                              \* bits: of the encoding
  LET len == CeilDiv(bits, 8)
      hl == HashSize(h)
      hh == PssHash(h, m, salt)
      db == Zeros(len - Len(salt) - hl - 2) \o <<1>> \o salt
      mask == BXor(db, Mgf1(h, hh, len - hl - 1))
  IN IF len < hl + Len(salt) + 2 THEN None
     ELSE <<mask[1] % 2^(8 - (8 * len - bits))>> \o Drop(mask, 1) \o hh \o <<188>>
SaltAuto == 0
SaltHash == -1
SignPss(h, m, key, slen, ent) ==
  LET k == PrivKey(key) IN
  IF ~HashKnown(h) THEN None
  ELSE IF k = <<>> \/ Len(m) # HashSize(h) THEN None
  ELSE LET bits == ZBitLen(k[1]) - 1
           max == CeilDiv(bits, 8) - 2 - HashSize(h)
           n == IF slen = SaltAuto THEN max ELSE IF slen = SaltHash THEN HashSize(h) ELSE slen
       IN IF n < 0 \/ n > max THEN None
          ELSE Private(k, PssEncode(h, m, bits, HmGen(HmInit("sha256", ent), n, <<>>)[2]))
RECURSIVE FirstNonZero(_, _)
FirstNonZero(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] # 0 THEN i ELSE FirstNonZero(s, i + 1)
PssValid(h, m, em, bits, n) ==                              \* n: salt size, -1 if any
  LET len == Len(em)
      hl == HashSize(h)
      hh == SubSeq(em, len - hl, len - 1)
      x == BXor(Take(em, len - hl - 1), Mgf1(h, hh, len - hl - 1))
      db == TopMask(x, bits - 8 * (hl + 1))
      i == FirstNonZero(db, 1)
  IN /\ len >= hl + 2 /\ (n >= 0 => len >= hl + n + 2)
     /\ em[len] = 188
     /\ em[1] < 2^(8 - (8 * len - bits))
     /\ i # 0 /\ db[i] = 1
     /\ (n >= 0 => Len(db) - i = n)
     /\ PssHash(h, m, Drop(db, i)) = hh
VerifyPss(h, m, sig, key, slen) ==
  LET k == PubKey(key) IN
  IF ~HashKnown(h) THEN FALSE
  ELSE IF k = <<>> \/ Len(m) # HashSize(h) THEN FALSE
  ELSE IF Len(sig) # KLen(k) \/ ~Below(k, sig) \/ slen < -1 \/ slen > KLen(k) THEN FALSE
  ELSE LET bits == ZBitLen(k[1]) - 1
           len == CeilDiv(bits, 8)
           em == Public(k, sig)
           n == IF slen = SaltAuto THEN -1 ELSE IF slen = SaltHash THEN HashSize(h) ELSE slen
       IN IF len < KLen(k) /\ em[1] # 0 THEN FALSE
          ELSE IF len < HashSize(h) + 2 THEN FALSE
          ELSE PssValid(h, m, Drop(em, KLen(k) - len), bits, n)

\* OAEP
EncryptOaep(h, m, key, label, ent) ==
  LET k == PubKey(key) IN
  IF ~HashKnown(h) THEN None
  ELSE IF k = <<>> THEN None
  ELSE IF KLen(k) < 2 * HashSize(h) + 2 + Len(m) THEN None
  ELSE LET hl == HashSize(h)
           dl == KLen(k) - hl - 1
           seed == HmGen(HmInit("sha256", ent), hl, <<>>)[2]
           db == HashF(h, label) \o Zeros(dl - Len(m) - 1 - hl) \o <<1>> \o m
           mdb == BXor(db, Mgf1(h, seed, dl))
       IN Public(k, <<0>> \o BXor(seed, Mgf1(h, mdb, hl)) \o mdb)
UnOaep(h, em, label) ==
  LET hl == HashSize(h)
      dl == Len(em) - hl - 1
      mdb == Drop(em, hl + 1)
      seed == BXor(SubSeq(em, 2, hl + 1), Mgf1(h, mdb, hl))
      db == BXor(mdb, Mgf1(h, seed, dl))
      i == FirstNonZero(db, hl + 1)
  IN IF em[1] # 0 \/ Take(db, hl) # HashF(h, label) \/ i = 0 THEN None
     ELSE IF db[i] # 1 THEN None ELSE Drop(db, i)
DecryptOaep(h, c, key, label) ==
  LET k == PrivKey(key) IN
  IF ~HashKnown(h) THEN None
  ELSE IF k = <<>> THEN None
  ELSE IF Len(c) # KLen(k) \/ KLen(k) < 2 * HashSize(h) + 2 \/ ~Below(k, c) THEN None
  ELSE UnOaep(h, Private(k, c), label)

----------------------------------------------------------------------------
\* a ciphertext hidden as a number of the given bit size congruent to it
VeilOk(c, bits, key) ==
  LET k == PubKey(key) IN
  IF k = <<>> THEN FALSE
  ELSE Len(c) = KLen(k) /\ bits <= MaxBits + 8 /\ bits >= ZBitLen(k[1]) /\ Below(k, c)
Veiled(v, c, bits, key) ==
  LET k == PubKey(key) IN Len(v) = CeilDiv(bits, 8) /\ ZBitLen(ZBE(v)) <= bits /\ ZBE(v) %% k[1] = ZBE(c)
Unveil(v, bits, key) ==
  LET k == PubKey(key) IN
  IF k = <<>> THEN None
  ELSE IF Len(v) < KLen(k) \/ Len(v) > MaxBits \div 8 + 1 \/ bits > MaxBits + 8 THEN None
  ELSE IF bits # 0 /\ ZBitLen(ZBE(v)) > bits THEN None
  ELSE BEZ(ZBE(v) %% k[1], KLen(k))
=============================================================================
