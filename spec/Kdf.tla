-------------------------------- MODULE Kdf --------------------------------
(***************************************************************************)
(* Key derivation: HKDF (RFC 5869), PBKDF2 (RFC 8018), scrypt (RFC 7914),  *)
(* bcrypt (Provos and Mazieres; OpenBSD), bcrypt_pbkdf (OpenSSH), the      *)
(* OpenPGP string-to-key functions (RFC 4880) and EVP_BytesToKey.          *)
(* A refusal is None.                                                      *)
(***************************************************************************)
EXTENDS Hash, Cipher, Stream

None == <<-1>>
\* first n bytes of f(1) \o f(2) \o ..., each f(i) of size h
Chain(f(_), h, n) == LET g(acc, i) == acc \o f(i + 1) IN Take(Iter(g, <<>>, CeilDiv(n, h)), n)

HkdfExtract(a, ikm, salt) == Hmac(a, salt, ikm)
HkdfExpand(a, prk, info, n) ==
  LET h == HashSize(a)
      k == CeilDiv(n, h)
      step(x, i) == LET t == Hmac(a, prk, x.t \o info \o <<i + 1>>) IN [t |-> t, o |-> x.o \o t]
  IN IF k > 255 THEN None ELSE Take(Iter(step, [t |-> <<>>, o |-> <<>>], k).o, n)

Pbkdf2(a, pass, salt, c, n) ==
  LET f(i) == LET u1 == Hmac(a, pass, salt \o IntBE(i, 4))
                  step(x, j) == LET u == Hmac(a, pass, x.u) IN [u |-> u, t |-> BXor(x.t, u)]
              IN Iter(step, [u |-> u1, t |-> u1], c - 1).t
  IN Chain(f, HashSize(a), n)

\* EVP_BytesToKey with one iteration; the salt is eight bytes or empty
Eb2k(a, pass, salt, kl, il) ==
  LET s == Take(salt, IF Len(salt) > 8 THEN 8 ELSE Len(salt))
      step(x, i) == LET d == HashF(a, x.d \o pass \o s) IN [d |-> d, o |-> x.o \o d]
      h == HashSize(a)
      o == Iter(step, [d |-> <<>>, o |-> <<>>], CeilDiv(kl + il, h)).o
  IN IF Len(s) \notin {0, 8} THEN None ELSE <<Take(o, kl), SubSeq(o, kl + 1, kl + il)>>

\* OpenPGP: the i-th block has i - 1 zero bytes in front
PgpSalted(a, pass, salt, n) == LET f(i) == HashF(a, Zeros(i - 1) \o salt \o pass) IN Chain(f, HashSize(a), n)
PgpIterated(a, pass, salt, count, n) ==
  LET sp == salt \o pass
      m == IF count < Len(sp) THEN Len(sp) ELSE count
      body == Tup([i \in 1..m |-> sp[((i - 1) % Len(sp)) + 1]])
      f(i) == HashF(a, Zeros(i - 1) \o body)
  IN IF Len(sp) = 0 THEN None ELSE Chain(f, HashSize(a), n)

----------------------------------------------------------------------------
\* scrypt; blocks as little-endian words
Salsa8Def(x) ==
  LET y == Iter(LAMBDA y, i : LET e == QRs(QRs(QRs(QRs(y, 1, 5, 9, 13), 6, 10, 14, 2), 11, 15, 3, 7), 16, 4, 8, 12)
                              IN QRs(QRs(QRs(QRs(e, 1, 2, 3, 4), 6, 7, 8, 5), 11, 12, 9, 10), 16, 13, 14, 15), Tup(x), 4)
  IN Tup([i \in 1..16 |-> WAdd(y[i], x[i])])
WsXor(a, b) == Tup([i \in 1..Len(a) |-> WXor(a[i], b[i])])
Blk(b, i) == SubSeq(b, 16 * i + 1, 16 * i + 16)
BlockMixDef(b) ==
  LET k == Len(b) \div 16                                   \* 2r blocks
      step(acc, i) == LET x == Salsa8Def(WsXor(acc.x, Blk(b, i)))
                      IN [x |-> x, e |-> IF i % 2 = 0 THEN acc.e \o x ELSE acc.e, o |-> IF i % 2 = 1 THEN acc.o \o x ELSE acc.o]
      z == Iter(step, [x |-> Blk(b, k - 1), e |-> <<>>, o |-> <<>>], k)
  IN z.e \o z.o
RoMixDef(b, n) ==
  LET fill == Iter(LAMBDA x, i : [x |-> BlockMixDef(x.x), v |-> Append(x.v, x.x)], [x |-> b, v |-> <<>>], n)
      j(x) == WAnd(x[Len(x) - 15], n - 1) + 1               \* n a power of two below 2^31
  IN Iter(LAMBDA x, i : BlockMixDef(WsXor(x, fill.v[j(x)])), fill.x, n)
RoMix(b, n) == RoMixDef(b, n)
IsPow2(n) == n # Z0 /\ ZAnd(n, n -- Z1) = Z0
\* n, r, p bigs
ScryptOk(n, r, p) ==
  /\ ZLt(Z1, n) /\ IsPow2(n) /\ r # Z0 /\ p # Z0
  /\ ZLt(r ** p, Z2(30))
  /\ ZLt(r, Z(4)) => ZLt(n, Z2(16 * ZInt(r)))
Scrypt(pass, salt, n, r, p, len) ==
  IF ~ScryptOk(n, r, p) THEN None
  ELSE IF len = 0 THEN <<>>
  ELSE LET sz == 128 * ZInt(r)
           b == Pbkdf2("sha256", pass, salt, 1, sz * ZInt(p))
           f(acc, i) == acc \o Cat32LE(RoMix(Words32LE(SubSeq(b, sz * i + 1, sz * i + sz)), ZInt(n)))
       IN Pbkdf2("sha256", pass, Iter(f, <<>>, ZInt(p)), 1, len)

----------------------------------------------------------------------------
\* bcrypt: n times, the state expanded with a then with b
BfLoopDef(st, a, b, n) == Iter(LAMBDA x, i : BfExpandDef(BfExpandDef(x, <<>>, a), <<>>, b), st, n)
BfLoop(st, a, b, n) == BfLoopDef(st, a, b, n)
Enc64(st, w) ==                                              \* 64 encryptions of pairs of words
  LET pair(i) == LET f(x, j) == BfEncW(st, x[1], x[2]) IN Iter(f, <<w[2 * i - 1], w[2 * i]>>, 64)
      p == Tup([i \in 1..(Len(w) \div 2) |-> pair(i)])
  IN Tup([k \in 1..Len(w) |-> p[(k + 1) \div 2][2 - (k % 2)]])
BcMagic == Words32BE(Hex("4f727068") \o Hex("65616e42") \o Hex("65686f6c") \o Hex("64657253") \o Hex("63727944") \o Hex("6f756274"))
BcRaw(key, salt, cost) ==
  Take(Cat32BE(Enc64(BfLoop(BfExpand(BfInit, salt, key), key, salt, 2^cost), BcMagic)), 23)
\* the key of minor version "a" wraps the length to eight bits, that of "b" keeps at most 72 bytes; a zero byte follows
BcKey(pass, minor) ==
  LET z == pass \o <<0>>
      n == Len(z) % 256
  IN IF minor = 97 THEN Take(z, IF n = 0 THEN 1 ELSE n)
     ELSE Take(z, IF Len(pass) > 72 THEN 73 ELSE Len(z))
BcA == Hex("2e2f4142434445464748494a4b4c4d4e4f505152535455565758595a6162636465666768696a6b6c6d6e6f707172737475767778797a30313233343536373839")
BcBits(s, f) == Tup([i \in 1..(Len(s) * f) |-> (s[((i - 1) \div f) + 1] \div (2^(f - 1 - ((i - 1) % f)))) % 2])
BcGroup(b, t, n) == LET v(k) == LET g(acc, j) == 2 * acc + (IF t * k + j + 1 <= Len(b) THEN b[t * k + j + 1] ELSE 0) IN Iter(g, 0, t)
                    IN Tup([k \in 1..n |-> v(k - 1)])
Bc64(s) == LET g == BcGroup(BcBits(s, 8), 6, CeilDiv(8 * Len(s), 6)) IN Tup([i \in 1..Len(g) |-> BcA[g[i] + 1]])
BcInv == [c \in 0..255 |-> IF \E k \in 1..64 : BcA[k] = c THEN (CHOOSE k \in 1..64 : BcA[k] = c) - 1 ELSE -1]
Bc64Dec(s, n) == IF \E i \in 1..Len(s) : BcInv[s[i]] < 0 THEN None ELSE BcGroup(BcBits(Tup([i \in 1..Len(s) |-> BcInv[s[i]]]), 6), 8, n)
BcGen(pass, salt, cost, minor) ==
  IF cost < 4 \/ cost > 31 \/ minor \notin {97, 98} THEN None
  ELSE <<36, 50, minor, 36, 48 + (cost \div 10), 48 + (cost % 10), 36>> \o Bc64(salt) \o Bc64(BcRaw(BcKey(pass, minor), salt, cost))
BcVerify(pass, rec) ==
  IF Len(rec) # 60 THEN FALSE
  ELSE IF SubSeq(rec, 1, 2) # <<36, 50>> \/ rec[3] \notin {97, 98} \/ rec[4] # 36 \/ rec[7] # 36
          \/ rec[5] \notin 48..57 \/ rec[6] \notin 48..57 THEN FALSE
  ELSE LET cost == 10 * (rec[5] - 48) + rec[6] - 48
           salt == Bc64Dec(SubSeq(rec, 8, 29), 16)
           h == Bc64Dec(SubSeq(rec, 30, 60), 23)
       IN IF cost < 4 \/ cost > 31 \/ salt = None \/ h = None THEN FALSE
          ELSE BcRaw(BcKey(pass, rec[3]), salt, cost) = h
\* text passwords: printable characters and the usual control characters
BcTextOk(s) == \A i \in 1..Len(s) : s[i] \in 7..13 \/ s[i] \in 32..126

\* bcrypt_pbkdf
BcMagic2 == Words32BE(Hex("4f787963") \o Hex("68726f6d") \o Hex("61746963") \o Hex("426c6f77") \o Hex("66697368") \o Hex("53776174")
                      \o Hex("44796e61") \o Hex("6d697465"))
BcHash(p, s) == Cat32LE(Enc64(BfLoop(BfExpand(BfInit, s, p), s, p, 64), BcMagic2))
BcPbkdf(pass, salt, rounds, size) ==
  IF rounds = 0 \/ Len(pass) = 0 \/ Len(salt) = 0 \/ size = 0 \/ size > 1024 \/ Len(salt) > 1048576 THEN None
  ELSE LET stride == CeilDiv(size, 32)
           p == HashF("sha512", pass)
           blk(i) == LET u1 == BcHash(p, HashF("sha512", salt \o IntBE(i, 4)))
                         step(x, j) == LET u == BcHash(p, HashF("sha512", x.u)) IN [u |-> u, t |-> BXor(x.t, u)]
                     IN Iter(step, [u |-> u1, t |-> u1], rounds - 1).t
           bs == Tup([i \in 1..stride |-> blk(i)])
       \* output byte d is taken from block d mod stride
       IN Tup([d \in 1..size |-> bs[((d - 1) % stride) + 1][((d - 1) \div stride) + 1]])
=============================================================================
