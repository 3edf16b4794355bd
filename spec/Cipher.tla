------------------------------- MODULE Cipher ------------------------------
(***************************************************************************)
(* The block ciphers of the library as functions of key and block.         *)
(* Sched(id, key) is the expanded key, Enc and Dec apply the permutation   *)
(* and its inverse.  AES, DES, RC2 and Blowfish are also evaluated by the  *)
(* JDK or by java/CipherOv.java; CipherTest.tla checks that both agree.    *)
(***************************************************************************)
EXTENDS Words, Json

Tables == JsonDeserialize("data/cipher_tables.json")   \* digits of pi; RFC 2268, 2144 and 3713 tables

\* ---- GF(2^8) ---------------------------------------------------------------
XTime(a, poly) == IF a >= 128 THEN WXor(2 * a, poly) ELSE 2 * a
RECURSIVE GMul(_, _, _)
GMul(a, b, poly) == IF b = 0 THEN 0
                    ELSE WXor(IF b % 2 = 1 THEN a ELSE 0, GMul(XTime(a, poly), b \div 2, poly))

\* ---- AES (FIPS 197) ----------------------------------------------------------
LOCAL A11b == 283
LOCAL GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a, b, A11b) = 1
LOCAL Rot8(a, n) == WOr(WAnd(WShl(a, n), 255), WShr(a, 8 - n))
LOCAL Affine(b) == WXor(WXor(WXor(b, Rot8(b,1)), WXor(Rot8(b,2), Rot8(b,3))), WXor(Rot8(b,4), 99))
AesS == Tup([x \in 1..256 |-> Affine(GInv(x - 1))])
LOCAL AesSI == Tup([x \in 1..256 |-> (CHOOSE y \in 1..256 : AesS[y] = x - 1) - 1])
LOCAL Mul2 == Tup([x \in 1..256 |-> GMul(x - 1, 2, A11b)])
LOCAL Mul3 == Tup([x \in 1..256 |-> GMul(x - 1, 3, A11b)])
LOCAL Mul9 == Tup([x \in 1..256 |-> GMul(x - 1, 9, A11b)])
LOCAL MulB == Tup([x \in 1..256 |-> GMul(x - 1, 11, A11b)])
LOCAL MulD == Tup([x \in 1..256 |-> GMul(x - 1, 13, A11b)])
LOCAL MulE == Tup([x \in 1..256 |-> GMul(x - 1, 14, A11b)])
AesSub(w) == <<AesS[w[1]+1], AesS[w[2]+1], AesS[w[3]+1], AesS[w[4]+1]>>
\* round keys: a sequence of 4-byte words
AesKeys(key) ==
  LET nk == Len(key) \div 4
      nw == 4 * (nk + 7)
      step(x, j) ==                       \* x = [w, rc]
        LET i == nk + j
            t == x.w[i]
            u == IF i % nk = 0 THEN LET v == AesSub(<<t[2], t[3], t[4], t[1]>>) IN <<WXor(v[1], x.rc), v[2], v[3], v[4]>>
                 ELSE IF nk > 6 /\ i % nk = 4 THEN AesSub(t) ELSE t
        IN [w |-> Append(x.w, BXor(x.w[i - nk + 1], u)),
            rc |-> IF i % nk = 0 THEN GMul(x.rc, 2, A11b) ELSE x.rc]
  IN Iter(step, [w |-> Blocks(key, 4), rc |-> 1], nw - nk).w
LOCAL RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]
LOCAL AesShift(s) == Tup([i \in 1..16 |-> s[4 * ((((i-1) \div 4) + ((i-1) % 4)) % 4) + ((i-1) % 4) + 1]])
LOCAL AesUnshift(s) == Tup([i \in 1..16 |-> s[4 * ((((i-1) \div 4) + 4 - ((i-1) % 4)) % 4) + ((i-1) % 4) + 1]])
LOCAL Mix(s) == Tup([i \in 1..16 |-> LET c == 4 * ((i-1) \div 4)
                                         g(k) == s[c + ((i - 1 + k) % 4) + 1]
                                     IN WXor(WXor(Mul2[g(0)+1], Mul3[g(1)+1]), WXor(g(2), g(3)))])
LOCAL Unmix(s) == Tup([i \in 1..16 |-> LET c == 4 * ((i-1) \div 4)
                                           g(k) == s[c + ((i - 1 + k) % 4) + 1] + 1
                                       IN WXor(WXor(MulE[g(0)], MulB[g(1)]), WXor(MulD[g(2)], Mul9[g(3)]))])
AesEncDef(w, b) ==
  LET nr == Len(w) \div 4 - 1
      s0 == BXor(b, RoundKey(w, 0))
      s == Iter(LAMBDA x, r : BXor(Mix(AesShift(Tup([i \in 1..16 |-> AesS[x[i]+1]]))), RoundKey(w, r + 1)), s0, nr - 1)
  IN BXor(AesShift(Tup([i \in 1..16 |-> AesS[s[i]+1]])), RoundKey(w, nr))
AesDecDef(w, b) ==
  LET nr == Len(w) \div 4 - 1
      isub(x) == Tup([i \in 1..16 |-> AesSI[x[i]+1]])
      s == Iter(LAMBDA x, r : Unmix(BXor(isub(AesUnshift(x)), RoundKey(w, nr - 1 - r))), BXor(b, RoundKey(w, nr)), nr - 1)
  IN BXor(isub(AesUnshift(s)), RoundKey(w, 0))

\* ---- DES (FIPS 46-3) ---------------------------------------------------------
LOCAL DesP == <<16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25>>
LOCAL DesPC1 == <<57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
                  63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4>>
LOCAL DesPC2 == <<14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
                  41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32>>
LOCAL DesShifts == <<1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1>>
LOCAL DesIP == Tup([i \in 1..64 |-> 64 + 2 * (IF (i-1) \div 8 < 4 THEN (i-1) \div 8 ELSE (i-1) \div 8 - 4)
                                   - (IF (i-1) \div 8 < 4 THEN 6 ELSE 7) - 8 * ((i-1) % 8)])
LOCAL DesFP == Tup([i \in 1..64 |-> CHOOSE j \in 1..64 : DesIP[j] = i])
LOCAL DesE == Tup([i \in 1..48 |-> ((4 * ((i-1) \div 6) + ((i-1) % 6) + 31) % 32) + 1])
LOCAL DesS == <<
 <<14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,
   4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13>>,
 <<15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,
   0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9>>,
 <<10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,
   13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12>>,
 <<7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,
   10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14>>,
 <<2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,
   4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3>>,
 <<12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,
   9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13>>,
 <<4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,
   1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12>>,
 <<13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,
   7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11>> >>
LOCAL P2b == <<128,64,32,16,8,4,2,1>>
LOCAL BitsOf(s) == Tup([i \in 1..(8 * Len(s)) |-> (s[(i-1) \div 8 + 1] \div P2b[((i-1) % 8) + 1]) % 2])
LOCAL BytesOf(b) == Tup([i \in 1..(Len(b) \div 8) |->
   128*b[8*i-7] + 64*b[8*i-6] + 32*b[8*i-5] + 16*b[8*i-4] + 8*b[8*i-3] + 4*b[8*i-2] + 2*b[8*i-1] + b[8*i]])
LOCAL Perm(t, b) == Tup([i \in 1..Len(t) |-> b[t[i]]])
LOCAL RotBits(b, n) == Drop(b, n) \o Take(b, n)
DesKeys(key) ==
  LET k == Perm(DesPC1, BitsOf(key))
      step(x, i) == LET c == RotBits(x.c, DesShifts[i+1])
                        d == RotBits(x.d, DesShifts[i+1])
                    IN [c |-> c, d |-> d, ks |-> Append(x.ks, Perm(DesPC2, c \o d))]
  IN Iter(step, [c |-> Take(k, 28), d |-> Drop(k, 28), ks |-> <<>>], 16).ks
LOCAL Nib(v) == <<v \div 8, (v \div 4) % 2, (v \div 2) % 2, v % 2>>
LOCAL DesF(r, k) ==
  LET x == BXor(Perm(DesE, r), k)
      s(j) == LET o == 6 * (j - 1) IN
              Nib(DesS[j][32*x[o+1] + 16*x[o+6] + 8*x[o+2] + 4*x[o+3] + 2*x[o+4] + x[o+5] + 1])
  IN Perm(DesP, s(1) \o s(2) \o s(3) \o s(4) \o s(5) \o s(6) \o s(7) \o s(8))
DesRun(ks, b) ==
  LET v == Perm(DesIP, BitsOf(b))
      x == Iter(LAMBDA y, i : <<y[2], BXor(y[1], DesF(y[2], ks[i+1]))>>, <<Take(v, 32), Drop(v, 32)>>, 16)
  IN BytesOf(Perm(DesFP, x[2] \o x[1]))
DesEncDef(key, b) == DesRun(DesKeys(key), b)
DesDecDef(key, b) == DesRun(Rev(DesKeys(key)), b)
Des3EncDef(key, b) == DesEncDef(SubSeq(key, 17, 24), DesDecDef(SubSeq(key, 9, 16), DesEncDef(Take(key, 8), b)))
Des3DecDef(key, b) == DesDecDef(Take(key, 8), DesEncDef(SubSeq(key, 9, 16), DesDecDef(SubSeq(key, 17, 24), b)))

\* ---- RC2 (RFC 2268) ------------------------------------------------------------
LOCAL Rc2Pi == Hex(Tables.rc2)
\* effective key length in bits: bits
Rc2Keys(key, bits) ==
  LET t == Len(key)
      t8 == (bits + 7) \div 8
      tm == WShr(255, 8 * t8 - bits)
      l1 == Iter(LAMBDA l, i : Append(l, Rc2Pi[((l[Len(l)] + l[Len(l) + 1 - t]) % 256) + 1]), key, 128 - t)
      l2 == [l1 EXCEPT ![129 - t8] = Rc2Pi[WAnd(@, tm) + 1]]
      l3 == Iter(LAMBDA l, j : LET i == 128 - t8 - j IN [l EXCEPT ![i] = Rc2Pi[WXor(l[i+1], l[i+t8]) + 1]], l2, 128 - t8)
  IN Tup([i \in 1..64 |-> l3[2*i-1] + 256 * l3[2*i]])
LOCAL Rot16(a, n) == WOr(WAnd(WShl(a, n), 65535), WShr(a, 16 - n))
LOCAL Not16(a) == 65535 - a
LOCAL Rc2Rot == <<1, 2, 3, 5>>
LOCAL LE16s(b) == <<b[1] + 256*b[2], b[3] + 256*b[4], b[5] + 256*b[6], b[7] + 256*b[8]>>
LOCAL OfLE16s(r) == <<r[1] % 256, r[1] \div 256, r[2] % 256, r[2] \div 256, r[3] % 256, r[3] \div 256, r[4] % 256, r[4] \div 256>>
LOCAL Rc2MixSum(r, i) == WAnd(r[((i+2) % 4) + 1], r[((i+1) % 4) + 1]) + WAnd(Not16(r[((i+2) % 4) + 1]), r[((i) % 4) + 1])
\* word i (0..3) uses neighbours i-1, i-2, i-3
LOCAL Nb(r, i, k) == r[((i - k + 4) % 4) + 1]
LOCAL RMixF(r, i) == WAnd(Nb(r,i,1), Nb(r,i,2)) + WAnd(Not16(Nb(r,i,1)), Nb(r,i,3))
LOCAL RMix(ks, r, i, j) == [r EXCEPT ![i+1] = Rot16((@ + ks[j+1] + RMixF(r, i)) % 65536, Rc2Rot[i+1])]
LOCAL RMash(ks, r, i) == [r EXCEPT ![i+1] = (@ + ks[(Nb(r,i,1) % 64) + 1]) % 65536]
LOCAL UMix(ks, r, i, j) == [r EXCEPT ![i+1] = (Rot16(@, 16 - Rc2Rot[i+1]) - ks[j+1] - RMixF(r, i) + 196608) % 65536]
LOCAL UMash(ks, r, i) == [r EXCEPT ![i+1] = (@ - ks[(Nb(r,i,1) % 64) + 1] + 65536) % 65536]
LOCAL MixRound(ks, r, n) == Iter(LAMBDA x, i : RMix(ks, x, i, 4 * n + i), r, 4)
LOCAL MashRound(ks, r) == Iter(LAMBDA x, i : RMash(ks, x, i), r, 4)
LOCAL UnmixRound(ks, r, n) == Iter(LAMBDA x, i : UMix(ks, x, 3 - i, 4 * n + 3 - i), r, 4)
LOCAL UnmashRound(ks, r) == Iter(LAMBDA x, i : UMash(ks, x, 3 - i), r, 4)
Rc2EncDef(ks, b) ==
  OfLE16s(Iter(LAMBDA r, n : LET m == MixRound(ks, r, n) IN IF n \in {4, 10} THEN MashRound(ks, m) ELSE m, LE16s(b), 16))
Rc2DecDef(ks, b) ==
  OfLE16s(Iter(LAMBDA r, k : LET n == 15 - k
                                 m == IF n \in {4, 10} THEN UnmashRound(ks, r) ELSE r IN UnmixRound(ks, m, n), LE16s(b), 16))

\* ---- Blowfish --------------------------------------------------------------------
BfInit == HexWords32(Tables.pi)            \* P[0..17], then the four S-boxes
LOCAL BfF(st, x) == WAdd(WXor(WAdd(st[19 + WByte(x, 3)], st[275 + WByte(x, 2)]), st[531 + WByte(x, 1)]), st[787 + WByte(x, 0)])
BfEncWDef(st, l, r) ==
  LET x == Iter(LAMBDA y, i : LET a == WXor(y[1], st[i+1]) IN <<WXor(y[2], BfF(st, a)), a>>, <<l, r>>, 16)
  IN <<WXor(x[2], st[18]), WXor(x[1], st[17])>>
BfDecWDef(st, l, r) ==
  LET x == Iter(LAMBDA y, i : LET a == WXor(y[1], st[18-i]) IN <<WXor(y[2], BfF(st, a)), a>>, <<l, r>>, 16)
  IN <<WXor(x[2], st[1]), WXor(x[1], st[2])>>
LOCAL Cyc32(s, i) == IF Len(s) = 0 THEN 0 ELSE     \* i-th big-endian word of s repeated for ever
  LET g(k) == s[((4 * i + k) % Len(s)) + 1] IN W32BE(<<g(0), g(1), g(2), g(3)>>, 0)
\* (salted) key expansion: mix in the key, then replace all entries by chained encryptions
BfExpandDef(st, salt, key) ==
  LET s0 == Tup([i \in 1..1042 |-> IF i <= 18 THEN WXor(st[i], Cyc32(key, i - 1)) ELSE st[i]])
      step(x, k) == LET e == BfEncWDef(x.s, WXor(x.l, Cyc32(salt, 2 * k)), WXor(x.r, Cyc32(salt, 2 * k + 1)))
                    IN [s |-> [x.s EXCEPT ![2*k+1] = e[1], ![2*k+2] = e[2]], l |-> e[1], r |-> e[2]]
  IN Iter(step, [s |-> s0, l |-> 0, r |-> 0], 521).s
BfExpand(st, salt, key) == BfExpandDef(st, salt, key)
BfEncW(st, l, r) == BfEncWDef(st, l, r)
BfDecW(st, l, r) == BfDecWDef(st, l, r)
BfKeys(key) == BfExpand(BfInit, <<>>, key)

\* ---- Camellia (RFC 3713) -----------------------------------------------------------
LOCAL CamS1 == Hex(Tables.camellia)
LOCAL CamS2 == Tup([i \in 1..256 |-> Rot8(CamS1[i], 1)])
LOCAL CamS3 == Tup([i \in 1..256 |-> Rot8(CamS1[i], 7)])
LOCAL CamS4 == Tup([i \in 1..256 |-> CamS1[Rot8(i - 1, 1) + 1]])
LOCAL CamSigma == HexWords64("a09e667f3bcc908bb67ae8584caa73b2c6ef372fe94f82be54ff53a5f1d36f1c10e527fade682d1db05688c2b3e6c1fd")
LOCAL X3(a, b, c) == WXor3(a, b, c)
CamF(x, k) ==
  LET y == BE64(LXor(x, k))
      t1 == CamS1[y[1]+1]  t2 == CamS2[y[2]+1]  t3 == CamS3[y[3]+1]  t4 == CamS4[y[4]+1]
      t5 == CamS2[y[5]+1]  t6 == CamS3[y[6]+1]  t7 == CamS4[y[7]+1]  t8 == CamS1[y[8]+1]
  IN L64BE(<<X3(WXor(t1, t3), WXor(t4, t6), WXor(t7, t8)), X3(WXor(t1, t2), WXor(t4, t5), WXor(t7, t8)),
             X3(WXor(t1, t2), WXor(t3, t5), WXor(t6, t8)), X3(WXor(t2, t3), WXor(t4, t5), WXor(t6, t7)),
             X3(WXor(t1, t2), WXor(t6, t7), t8), X3(WXor(t2, t3), WXor(t5, t7), t8),
             X3(WXor(t3, t4), WXor(t5, t6), t8), X3(WXor(t1, t4), WXor(t5, t6), t7)>>, 0)
LOCAL CamFL(x, k) == LET r == WXor(x[2], WRotl(WAnd(x[1], k[1]), 1)) IN <<WXor(x[1], WOr(r, k[2])), r>>
LOCAL CamFLI(y, k) == LET l == WXor(y[1], WOr(y[2], k[2])) IN <<l, WXor(y[2], WRotl(WAnd(l, k[1]), 1))>>
\* 128-bit value <<hi, lo>> rotated left
LOCAL Rot128(x, n) == IF n = 0 THEN x
  ELSE IF n >= 64 THEN LET y == <<x[2], x[1]>> m == n - 64 IN
       (IF m = 0 THEN y ELSE <<LOr(LShl(y[1], m), LShr(y[2], 64 - m)), LOr(LShl(y[2], m), LShr(y[1], 64 - m))>>)
  ELSE <<LOr(LShl(x[1], n), LShr(x[2], 64 - n)), LOr(LShl(x[2], n), LShr(x[1], 64 - n))>>
CamKeys(key) ==
  LET kl == <<L64BE(key, 0), L64BE(key, 8)>>
      kr == IF Len(key) = 16 THEN <<L0, L0>>
            ELSE IF Len(key) = 24 THEN <<L64BE(key, 16), LNot(L64BE(key, 16))>>
            ELSE <<L64BE(key, 16), L64BE(key, 24)>>
      d0 == <<LXor(kl[1], kr[1]), LXor(kl[2], kr[2])>>
      r1 == LXor(d0[2], CamF(d0[1], CamSigma[1]))
      l1 == LXor(d0[1], CamF(r1, CamSigma[2]))
      e1 == LXor(l1, kl[1])
      e2 == LXor(r1, kl[2])
      r2 == LXor(e2, CamF(e1, CamSigma[3]))
      ka == <<LXor(e1, CamF(r2, CamSigma[4])), r2>>
      g1 == LXor(ka[1], kr[1])
      g2 == LXor(ka[2], kr[2])
      r3 == LXor(g2, CamF(g1, CamSigma[5]))
      kb == <<LXor(g1, CamF(r3, CamSigma[6])), r3>>
  IN IF Len(key) = 16
     THEN [kw |-> kl \o Rot128(ka, 111),
           k |-> ka \o Rot128(kl, 15) \o Rot128(ka, 15) \o Rot128(kl, 45) \o <<Rot128(ka, 45)[1], Rot128(kl, 60)[2]>>
                 \o Rot128(ka, 60) \o Rot128(kl, 94) \o Rot128(ka, 94) \o Rot128(kl, 111),
           ke |-> Rot128(ka, 30) \o Rot128(kl, 77)]
     ELSE [kw |-> kl \o Rot128(kb, 111),
           k |-> kb \o Rot128(kr, 15) \o Rot128(ka, 15) \o Rot128(kb, 30) \o Rot128(kl, 45) \o Rot128(ka, 45)
                 \o Rot128(kr, 60) \o Rot128(kb, 60) \o Rot128(kl, 77) \o Rot128(kr, 94) \o Rot128(ka, 94) \o Rot128(kl, 111),
           ke |-> Rot128(kr, 30) \o Rot128(kl, 60) \o Rot128(ka, 77)]
CamRun(kw, k, ke, b) ==
  LET x0 == <<LXor(L64BE(b, 0), kw[1]), LXor(L64BE(b, 8), kw[2])>>
      n == Len(k)
      step(x, i) ==
        LET y == <<LXor(x[2], CamF(x[1], k[i+1])), x[1]>>
            j == (i + 1) \div 6
        IN IF (i + 1) % 6 = 0 /\ i + 1 < n THEN <<CamFL(y[1], ke[2*j-1]), CamFLI(y[2], ke[2*j])>> ELSE y
      x == Iter(step, x0, n)
  IN BE64(LXor(x[2], kw[3])) \o BE64(LXor(x[1], kw[4]))
CamEnc(s, b) == CamRun(s.kw, s.k, s.ke, b)
CamDec(s, b) == CamRun(<<s.kw[3], s.kw[4], s.kw[1], s.kw[2]>>, Rev(s.k), Rev(s.ke), b)

\* ---- CAST-128 (RFC 2144) --------------------------------------------------------------
LOCAL CastS == Tup([i \in 1..8 |-> HexWords32(Tables.cast[i])])
LOCAL C5(b) == CastS[5][b+1]
LOCAL C6(b) == CastS[6][b+1]
LOCAL C7(b) == CastS[7][b+1]
LOCAL C8(b) == CastS[8][b+1]
LOCAL CX5(a, b, c, d, e) == WXor(WXor3(a, b, c), WXor(d, e))
\* one of the two mixing steps: new bytes from old ones
LOCAL CastZ(x) ==
  LET X(i) == x[i+1]
      z0 == BE32(WXor(W32BE(x, 0), CX5(C5(X(13)), C6(X(15)), C7(X(12)), C8(X(14)), C7(X(8)))))
      z4 == BE32(WXor(W32BE(x, 8), CX5(C5(z0[1]), C6(z0[3]), C7(z0[2]), C8(z0[4]), C8(X(10)))))
      z8 == BE32(WXor(W32BE(x, 12), CX5(C5(z4[4]), C6(z4[3]), C7(z4[2]), C8(z4[1]), C5(X(9)))))
      zc == BE32(WXor(W32BE(x, 4), CX5(C5(z8[3]), C6(z8[2]), C7(z8[4]), C8(z8[1]), C6(X(11)))))
  IN z0 \o z4 \o z8 \o zc
LOCAL CastX(z) ==
  LET Y(i) == z[i+1]
      x0 == BE32(WXor(W32BE(z, 8), CX5(C5(Y(5)), C6(Y(7)), C7(Y(4)), C8(Y(6)), C7(Y(0)))))
      x4 == BE32(WXor(W32BE(z, 0), CX5(C5(x0[1]), C6(x0[3]), C7(x0[2]), C8(x0[4]), C8(Y(2)))))
      x8 == BE32(WXor(W32BE(z, 4), CX5(C5(x4[4]), C6(x4[3]), C7(x4[2]), C8(x4[1]), C5(Y(1)))))
      xc == BE32(WXor(W32BE(z, 12), CX5(C5(x8[3]), C6(x8[2]), C7(x8[4]), C8(x8[1]), C6(Y(3)))))
  IN x0 \o x4 \o x8 \o xc
LOCAL CastK(y, a, b, c, d, e, f) == CX5(C5(y[a+1]), C6(y[b+1]), C7(y[c+1]), C8(y[d+1]), CastS[f][y[e+1]+1])
LOCAL CastHalf(x) ==
  LET z == CastZ(x)
      x2 == CastX(z)
      z2 == CastZ(x2)
      x3 == CastX(z2)
  IN [x |-> x3, k |->
      <<CastK(z, 8,9,7,6,2,5), CastK(z, 10,11,5,4,6,6), CastK(z, 12,13,3,2,9,7), CastK(z, 14,15,1,0,12,8),
        CastK(x2, 3,2,12,13,8,5), CastK(x2, 1,0,14,15,13,6), CastK(x2, 7,6,8,9,3,7), CastK(x2, 5,4,10,11,7,8),
        CastK(z2, 3,2,12,13,9,5), CastK(z2, 1,0,14,15,12,6), CastK(z2, 7,6,8,9,2,7), CastK(z2, 5,4,10,11,6,8),
        CastK(x3, 8,9,7,6,3,5), CastK(x3, 10,11,5,4,7,6), CastK(x3, 12,13,3,2,8,7), CastK(x3, 14,15,1,0,13,8)>>]
CastKeys(key) == LET a == CastHalf(key) b == CastHalf(a.x) IN [km |-> a.k, kr |-> Tup([i \in 1..16 |-> WAnd(b.k[i], 31)])]
LOCAL CastF(s, d, i) ==      \* i = 1..16
  LET t == (i - 1) % 3
      v == WRotl(IF t = 0 THEN WAdd(s.km[i], d) ELSE IF t = 1 THEN WXor(s.km[i], d) ELSE WSub(s.km[i], d), s.kr[i])
      a == CastS[1][WByte(v,3)+1]  b == CastS[2][WByte(v,2)+1]  c == CastS[3][WByte(v,1)+1]  e == CastS[4][WByte(v,0)+1]
  IN IF t = 0 THEN WAdd(WSub(WXor(a, b), c), e)
     ELSE IF t = 1 THEN WXor(WAdd(WSub(a, b), c), e)
     ELSE WSub(WXor(WAdd(a, b), c), e)
CastEnc(s, b) == LET x == Iter(LAMBDA y, i : <<y[2], WXor(y[1], CastF(s, y[2], i + 1))>>, <<W32BE(b, 0), W32BE(b, 4)>>, 16)
                 IN BE32(x[2]) \o BE32(x[1])
CastDec(s, b) == LET x == Iter(LAMBDA y, i : <<y[2], WXor(y[1], CastF(s, y[2], 16 - i))>>, <<W32BE(b, 0), W32BE(b, 4)>>, 16)
                 IN BE32(x[2]) \o BE32(x[1])

\* ---- IDEA -------------------------------------------------------------------------------
LOCAL IM(a, b) == LET x == IF a = 0 THEN 65536 ELSE a
                      y == IF b = 0 THEN 65536 ELSE b
                  IN ((((x * (y \div 256)) % 65537) * 256 + x * (y % 256)) % 65537) % 65536
LOCAL IA(a, b) == (a + b) % 65536
\* inverse of x modulo 65537 by x^65535 (0 stands for 65536 = -1)
LOCAL IInv(x) == Iter(LAMBDA r, i : IM(IM(r, r), x), x, 15)
LOCAL INeg(a) == (65536 - a) % 65536
IdeaKeys(key) ==
  LET k16(s) == Tup([i \in 1..8 |-> 256 * s[2*i-1] + s[2*i]])
      rot(w) == Tup([i \in 1..8 |-> WAnd(WOr(WShl(w[(i % 8) + 1], 9), WShr(w[((i + 1) % 8) + 1], 7)), 65535)])
      all == Iter(LAMBDA x, i : LET r == rot(x.w) IN [w |-> r, o |-> x.o \o r], [w |-> k16(key), o |-> k16(key)], 6)
  IN Take(all.o, 52)
IdeaInv(k) ==
  LET K(r, j) == k[6 * r + j]      \* subkey j of round r (0-based round, 1-based j)
      rnd(i) == LET r == 8 - i IN  \* keys of decryption round i = 0..8
        <<IInv(K(r, 1)),
          IF i \in {0, 8} THEN INeg(K(r, 2)) ELSE INeg(K(r, 3)),
          IF i \in {0, 8} THEN INeg(K(r, 3)) ELSE INeg(K(r, 2)),
          IInv(K(r, 4))>> \o (IF i < 8 THEN <<K(r - 1, 5), K(r - 1, 6)>> ELSE <<>>)
  IN Tup(rnd(0) \o rnd(1) \o rnd(2) \o rnd(3) \o rnd(4) \o rnd(5) \o rnd(6) \o rnd(7) \o rnd(8))
IdeaRun(k, b) ==
  LET x0 == Tup([i \in 1..4 |-> 256 * b[2*i-1] + b[2*i]])
      rnd(x, r) ==
        LET K(j) == k[6 * r + j]
            a == IM(x[1], K(1))  bb == IA(x[2], K(2))  c == IA(x[3], K(3))  d == IM(x[4], K(4))
            e == IM(WXor(a, c), K(5))
            f == IM(IA(WXor(bb, d), e), K(6))
            g == IA(e, f)
        IN <<WXor(a, f), WXor(c, f), WXor(bb, g), WXor(d, g)>>
      y == Iter(rnd, x0, 8)
      o == <<IM(y[1], k[49]), IA(y[3], k[50]), IA(y[2], k[51]), IM(y[4], k[52])>>
  IN <<o[1] \div 256, o[1] % 256, o[2] \div 256, o[2] % 256, o[3] \div 256, o[3] % 256, o[4] \div 256, o[4] % 256>>

\* ---- Serpent ------------------------------------------------------------------------------
LOCAL SerS == <<
  <<3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12>>, <<15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4>>,
  <<8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2>>, <<0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14>>,
  <<1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13>>, <<15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1>>,
  <<7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0>>, <<1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6>> >>
LOCAL SerSI == Tup([b \in 1..8 |-> Tup([v \in 1..16 |-> (CHOOSE u \in 1..16 : SerS[b][u] = v - 1) - 1])])
LOCAL BitAt(v, j) == (v \div P2b[8 - j]) % 2
\* for output bit j of a box: the input values giving 1
LOCAL Minterms(box) == Tup([j \in 1..4 |-> Tup(SelectSeq(<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, LAMBDA v : BitAt(box[v+1], j - 1) = 1))])
LOCAL SerM == Tup([b \in 1..8 |-> Minterms(SerS[b])])
LOCAL SerMI == Tup([b \in 1..8 |-> Minterms(SerSI[b])])
\* apply a 4-bit box to the 32 columns of four words
SerBox(m, x) ==
  LET n1 == WNot(x[1])  n2 == WNot(x[2])  n3 == WNot(x[3])  n4 == WNot(x[4])
      lo == <<WAnd(n1, n2), WAnd(x[1], n2), WAnd(n1, x[2]), WAnd(x[1], x[2])>>
      hi == <<WAnd(n3, n4), WAnd(x[3], n4), WAnd(n3, x[4]), WAnd(x[3], x[4])>>
      t == Tup([v \in 1..16 |-> WAnd(lo[((v-1) % 4) + 1], hi[(v-1) \div 4 + 1])])
      o(j) == Fold(LAMBDA a, v : WOr(a, t[v+1]), 0, m[j])
  IN <<o(1), o(2), o(3), o(4)>>
SerLT(x) ==
  LET a == WRotl(x[1], 13)
      c == WRotl(x[3], 3)
      b == WRotl(WXor3(x[2], a, c), 1)
      d == WRotl(WXor3(x[4], c, WShl(a, 3)), 7)
      a2 == WRotl(WXor3(a, b, d), 5)
      c2 == WRotl(WXor3(c, d, WShl(b, 7)), 22)
  IN <<a2, b, c2, d>>
SerLTI(x) ==
  LET c == WXor3(WRotr(x[3], 22), x[4], WShl(x[2], 7))
      a == WXor3(WRotr(x[1], 5), x[2], x[4])
      d == WXor3(WRotr(x[4], 7), c, WShl(a, 3))
      b == WXor3(WRotr(x[2], 1), a, c)
  IN <<WRotr(a, 13), b, WRotr(c, 3), d>>
LOCAL Phi == W32BE(<<158, 55, 121, 185>>, 0)
SerKeys(key) ==
  LET k == IF Len(key) < 32 THEN key \o <<1>> \o Zeros(31 - Len(key)) ELSE key
      w == Iter(LAMBDA v, i : Append(v, WRotl(WXor(WXor3(v[i+1], v[i+4], v[i+6]), WXor3(v[i+8], Phi, i)), 11)), Words32LE(k), 132)
      grp(i) == SubSeq(w, 8 + 4 * i + 1, 8 + 4 * i + 4)
  IN Tup([i \in 1..33 |-> SerBox(SerM[(((35 - (i - 1)) % 8)) + 1], grp(i - 1))])
SerEnc(k, b) ==
  LET x == Iter(LAMBDA y, i : LET s == SerBox(SerM[(i % 8) + 1], BXor(y, k[i+1])) IN IF i < 31 THEN SerLT(s) ELSE BXor(s, k[33]), Words32LE(b), 32)
  IN Cat32LE(x)
SerDec(k, b) ==
  LET x == Iter(LAMBDA y, j : LET i == 31 - j
                                  s == IF i = 31 THEN BXor(y, k[33]) ELSE SerLTI(y)
                              IN BXor(SerBox(SerMI[(i % 8) + 1], s), k[i+1]), Words32LE(b), 32)
  IN Cat32LE(x)

\* ---- Twofish --------------------------------------------------------------------------------
LOCAL TwT == <<
  << <<8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4>>, <<14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13>>,
     <<11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1>>, <<13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10>> >>,
  << <<2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5>>, <<1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8>>,
     <<4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15>>, <<11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10>> >> >>
LOCAL Ror4(a) == (a \div 2) + 8 * (a % 2)
LOCAL TwQv(t, x) ==
  LET a0 == x \div 16
      b0 == x % 16
      a1 == WXor(a0, b0)
      b1 == WXor(WXor(a0, Ror4(b0)), (8 * a0) % 16)
      a2 == t[1][a1+1]
      b2 == t[2][b1+1]
      a3 == WXor(a2, b2)
      b3 == WXor(WXor(a2, Ror4(b2)), (8 * a2) % 16)
  IN 16 * t[4][b3+1] + t[3][a3+1]
LOCAL TwQ == Tup([q \in 1..2 |-> Tup([x \in 1..256 |-> TwQv(TwT[q], x - 1)])])
LOCAL Q0(x) == TwQ[1][x+1]
LOCAL Q1(x) == TwQ[2][x+1]
LOCAL MdsPoly == 361     \* 0x169
LOCAL RsPoly == 333      \* 0x14d
LOCAL Mul5B == Tup([x \in 1..256 |-> GMul(x - 1, 91, MdsPoly)])
LOCAL MulEF == Tup([x \in 1..256 |-> GMul(x - 1, 239, MdsPoly)])
LOCAL TwMds(y) ==
  LET b5(i) == Mul5B[y[i]+1]
      ef(i) == MulEF[y[i]+1]
  IN W32LE(<<WXor(WXor(y[1], ef(2)), WXor(b5(3), b5(4))), WXor(WXor(b5(1), ef(2)), WXor(ef(3), y[4])),
             WXor(WXor(ef(1), b5(2)), WXor(y[3], ef(4))), WXor(WXor(ef(1), y[2]), WXor(ef(3), b5(4)))>>, 0)
\* the keyed function h; l = list of words as byte 4-tuples (first = l0)
LOCAL TwPre(x, l) ==
  LET k == Len(l)
      y4 == IF k = 4 THEN <<WXor(Q1(x[1]), l[4][1]), WXor(Q0(x[2]), l[4][2]), WXor(Q0(x[3]), l[4][3]), WXor(Q1(x[4]), l[4][4])>> ELSE x
      y3 == IF k >= 3 THEN <<WXor(Q1(y4[1]), l[3][1]), WXor(Q1(y4[2]), l[3][2]), WXor(Q0(y4[3]), l[3][3]), WXor(Q0(y4[4]), l[3][4])>> ELSE y4
      g(i) == y3[i]
      o(i, qa, qb, qc) == TwQ[qc][WXor(TwQ[qb][WXor(TwQ[qa][g(i)+1], l[2][i]) + 1], l[1][i]) + 1]
  IN <<o(1, 1, 1, 2), o(2, 2, 1, 1), o(3, 1, 2, 2), o(4, 2, 2, 1)>>
TwH(x, l) == TwMds(TwPre(x, l))
LOCAL TwRS == << <<1,164,85,135,90,88,219,158>>, <<164,86,130,243,30,198,104,229>>,
                 <<2,161,252,193,71,174,61,25>>, <<164,85,135,90,88,219,158,3>> >>
TwKeys(key) ==
  LET k == Len(key) \div 8
      w(i) == SubSeq(key, 4 * i + 1, 4 * i + 4)
      me == Tup([i \in 1..k |-> w(2 * (i - 1))])
      mo == Tup([i \in 1..k |-> w(2 * (i - 1) + 1)])
      rs(v) == Tup([r \in 1..4 |-> Fold(LAMBDA a, j : WXor(a, GMul(v[j], TwRS[r][j], RsPoly)), 0, <<1,2,3,4,5,6,7,8>>)])
      s == Tup([i \in 1..k |-> rs(SubSeq(key, 8 * (k - i) + 1, 8 * (k - i) + 8))])
      pair(i) == LET a == TwH(Rep(2 * i, 4), me)
                     b == WRotl(TwH(Rep(2 * i + 1, 4), mo), 8)
                 IN <<WAdd(a, b), WRotl(WAdd3(a, b, b), 9)>>
      ks == Iter(LAMBDA o, i : o \o pair(i), <<>>, 20)
  IN [k |-> ks, s |-> s]
LOCAL TwG(s, x) == TwH(LE32(x), s.s)
TwEnc(s, b) ==
  LET x0 == BXor(Words32LE(b), Take(s.k, 4))
      rnd(x, r) == LET t0 == TwG(s, x[1])
                       t1 == TwG(s, WRotl(x[2], 8))
                       f0 == WAdd3(t0, t1, s.k[2*r+9])
                       f1 == WAdd4(t0, t1, t1, s.k[2*r+10])
                   IN <<WRotr(WXor(x[3], f0), 1), WXor(WRotl(x[4], 1), f1), x[1], x[2]>>
      y == Iter(rnd, x0, 16)
  IN Cat32LE(BXor(<<y[3], y[4], y[1], y[2]>>, SubSeq(s.k, 5, 8)))
TwDec(s, b) ==
  LET z == BXor(Words32LE(b), SubSeq(s.k, 5, 8))
      rnd(x, j) == LET r == 15 - j
                       t0 == TwG(s, x[3])
                       t1 == TwG(s, WRotl(x[4], 8))
                       f0 == WAdd3(t0, t1, s.k[2*r+9])
                       f1 == WAdd4(t0, t1, t1, s.k[2*r+10])
                   IN <<x[3], x[4], WXor(WRotl(x[1], 1), f0), WRotr(WXor(x[2], f1), 1)>>
      y == Iter(rnd, <<z[3], z[4], z[1], z[2]>>, 16)
  IN Cat32LE(BXor(y, Take(s.k, 4)))

\* ---- by name ----------------------------------------------------------------------------------
CipherIds == {"aes128", "aes192", "aes256", "arc2", "arc2_gutmann", "arc2_40", "arc2_64", "arc2_128", "arc2_128_gutmann",
              "blowfish", "camellia128", "camellia192", "camellia256", "cast5", "des", "des_ede", "des_ede3", "idea",
              "serpent128", "serpent192", "serpent256", "twofish128", "twofish192", "twofish256"}
Wide == {"aes128", "aes192", "aes256", "camellia128", "camellia192", "camellia256", "serpent128", "serpent192",
         "serpent256", "twofish128", "twofish192", "twofish256"}
BlockSize(id) == IF id \in Wide THEN 16 ELSE IF id \in CipherIds THEN 8 ELSE 0
KeyOk(id, n) ==
  CASE id \in {"aes128", "camellia128", "serpent128", "twofish128", "arc2_128", "arc2_128_gutmann", "cast5", "des_ede", "idea"} -> n = 16
    [] id \in {"aes192", "camellia192", "serpent192", "twofish192", "des_ede3"} -> n = 24
    [] id \in {"aes256", "camellia256", "serpent256", "twofish256"} -> n = 32
    [] id \in {"arc2", "arc2_gutmann"} -> n \in 1..128
    [] id = "blowfish" -> n \in 1..72
    [] id = "arc2_40" -> n = 5
    [] id \in {"arc2_64", "des"} -> n = 8
    [] OTHER -> FALSE
\* JDK evaluation of the permutations (block b); alg is AES, DES, DESede or RC2/<bits>
JdkEnc(alg, key, b) == CASE alg = "AES" -> AesEncDef(AesKeys(key), b) [] alg = "DES" -> DesEncDef(key, b)
                         [] alg = "DESede" -> Des3EncDef(key, b)
JdkDec(alg, key, b) == CASE alg = "AES" -> AesDecDef(AesKeys(key), b) [] alg = "DES" -> DesDecDef(key, b)
                         [] alg = "DESede" -> Des3DecDef(key, b)

Sched(id, key) ==
  CASE id \in {"aes128", "aes192", "aes256"} -> [f |-> "AES", k |-> key]
    [] id = "des" -> [f |-> "DES", k |-> key]
    [] id = "des_ede" -> [f |-> "DESede", k |-> key \o Take(key, 8)]
    [] id = "des_ede3" -> [f |-> "DESede", k |-> key]
    [] id \in {"arc2", "arc2_40", "arc2_64", "arc2_128"} -> [f |-> "rc2", k |-> Rc2Keys(key, 8 * Len(key))]
    [] id \in {"arc2_gutmann", "arc2_128_gutmann"} -> [f |-> "rc2", k |-> Rc2Keys(key, 1024)]
    [] id = "blowfish" -> [f |-> "bf", k |-> BfKeys(key)]
    [] id \in {"camellia128", "camellia192", "camellia256"} -> [f |-> "cam", k |-> CamKeys(key)]
    [] id = "cast5" -> [f |-> "cast", k |-> CastKeys(key)]
    [] id = "idea" -> [f |-> "idea", k |-> [e |-> IdeaKeys(key), d |-> IdeaInv(IdeaKeys(key))]]
    [] id \in {"serpent128", "serpent192", "serpent256"} -> [f |-> "ser", k |-> SerKeys(key)]
    [] id \in {"twofish128", "twofish192", "twofish256"} -> [f |-> "two", k |-> TwKeys(key)]
Enc(s, b) ==
  CASE s.f \in {"AES", "DES", "DESede"} -> JdkEnc(s.f, s.k, b)
    [] s.f = "rc2" -> Rc2EncDef(s.k, b)
    [] s.f = "bf" -> LET x == BfEncW(s.k, W32BE(b, 0), W32BE(b, 4)) IN BE32(x[1]) \o BE32(x[2])
    [] s.f = "cam" -> CamEnc(s.k, b)
    [] s.f = "cast" -> CastEnc(s.k, b)
    [] s.f = "idea" -> IdeaRun(s.k.e, b)
    [] s.f = "ser" -> SerEnc(s.k, b)
    [] s.f = "two" -> TwEnc(s.k, b)
Dec(s, b) ==
  CASE s.f \in {"AES", "DES", "DESede"} -> JdkDec(s.f, s.k, b)
    [] s.f = "rc2" -> Rc2DecDef(s.k, b)
    [] s.f = "bf" -> LET x == BfDecW(s.k, W32BE(b, 0), W32BE(b, 4)) IN BE32(x[1]) \o BE32(x[2])
    [] s.f = "cam" -> CamDec(s.k, b)
    [] s.f = "cast" -> CastDec(s.k, b)
    [] s.f = "idea" -> IdeaRun(s.k.d, b)
    [] s.f = "ser" -> SerDec(s.k, b)
    [] s.f = "two" -> TwDec(s.k, b)
=============================================================================
