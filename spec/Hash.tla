-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* The hash functions of the library, as functions of the whole message.   *)
(* HashDef(id, key, outlen, m) is the published function evaluated in      *)
(* TLA+; HashF is the same with the JDK's implementation where one exists  *)
(* (HashTest.tla checks that both agree).                                  *)
(***************************************************************************)
EXTENDS Words

\* ---- Merkle-Damgard padding -------------------------------------------------
\* 0x80, zeros, then the bit length in lenBytes bytes
MDPad(m, blk, lenBytes, bigEndian) ==
  LET z == (blk - ((Len(m) + 1 + lenBytes) % blk)) % blk
      n == BitLen64(Len(m))
  IN m \o <<128>> \o Zeros(z)
       \o (IF bigEndian THEN Zeros(lenBytes - 8) \o BE64(n) ELSE LE64(n) \o Zeros(lenBytes - 8))

\* ---- SHA-2 ------------------------------------------------------------------
K256 == HexWords32("428a2f9871374491b5c0fbcfe9b5dba53956c25b59f111f1923f82a4ab1c5ed5d807aa9812835b01243185be550c7dc3"
    \o "72be5d7480deb1fe9bdc06a7c19bf174e49b69c1efbe47860fc19dc6240ca1cc2de92c6f4a7484aa5cb0a9dc76f988da"
    \o "983e5152a831c66db00327c8bf597fc7c6e00bf3d5a7914706ca63511429296727b70a852e1b21384d2c6dfc53380d13"
    \o "650a7354766a0abb81c2c92e92722c85a2bfe8a1a81a664bc24b8b70c76c51a3d192e819d6990624f40e3585106aa070"
    \o "19a4c1161e376c082748774c34b0bcb5391c0cb34ed8aa4a5b9cca4f682e6ff3748f82ee78a5636f84c878148cc70208"
    \o "90befffaa4506cebbef9a3f7c67178f2")
K512 == HexWords64("428a2f98d728ae227137449123ef65cdb5c0fbcfec4d3b2fe9b5dba58189dbbc3956c25bf348b53859f111f1b605d019"
    \o "923f82a4af194f9bab1c5ed5da6d8118d807aa98a303024212835b0145706fbe243185be4ee4b28c550c7dc3d5ffb4e2"
    \o "72be5d74f27b896f80deb1fe3b1696b19bdc06a725c71235c19bf174cf692694e49b69c19ef14ad2efbe4786384f25e3"
    \o "0fc19dc68b8cd5b5240ca1cc77ac9c652de92c6f592b02754a7484aa6ea6e4835cb0a9dcbd41fbd476f988da831153b5"
    \o "983e5152ee66dfaba831c66d2db43210b00327c898fb213fbf597fc7beef0ee4c6e00bf33da88fc2d5a79147930aa725"
    \o "06ca6351e003826f142929670a0e6e7027b70a8546d22ffc2e1b21385c26c9264d2c6dfc5ac42aed53380d139d95b3df"
    \o "650a73548baf63de766a0abb3c77b2a881c2c92e47edaee692722c851482353ba2bfe8a14cf10364a81a664bbc423001"
    \o "c24b8b70d0f89791c76c51a30654be30d192e819d6ef5218d69906245565a910f40e35855771202a106aa07032bbd1b8"
    \o "19a4c116b8d2d0c81e376c085141ab532748774cdf8eeb9934b0bcb5e19b48a8391c0cb3c5c95a634ed8aa4ae3418acb"
    \o "5b9cca4f7763e373682e6ff3d6b2b8a3748f82ee5defb2fc78a5636f43172f6084c87814a1f0ab728cc702081a6439ec"
    \o "90befffa23631e28a4506cebde82bde9bef9a3f7b2c67915c67178f2e372532bca273eceea26619cd186b8c721c0c207"
    \o "eada7dd6cde0eb1ef57d4f7fee6ed17806f067aa72176fba0a637dc5a2c898a6113f9804bef90dae1b710b35131c471b"
    \o "28db77f523047d8432caab7b40c724933c9ebe0a15c9bebc431d67c49c100d4c4cc5d4becb3e42b6597f299cfc657e2a"
    \o "5fcb6fab3ad6faec6c44198c4a475817")
IV256 == HexWords32("6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19")
IV224 == HexWords32("c1059ed8367cd5073070dd17f70e5939ffc00b316858151164f98fa7befa4fa4")
IV512 == HexWords64("6a09e667f3bcc908bb67ae8584caa73b3c6ef372fe94f82ba54ff53a5f1d36f1510e527fade682d19b05688c2b3e6c1f"
    \o "1f83d9abfb41bd6b5be0cd19137e2179")
IV384 == HexWords64("cbbb9d5dc1059ed8629a292a367cd5079159015a3070dd17152fecd8f70e593967332667ffc00b318eb44a8768581511"
    \o "db0c2e0d64f98fa747b5481dbefa4fa4")

LOCAL S256a(x) == WXor3(WRotr(x,7), WRotr(x,18), WShr(x,3))
LOCAL S256b(x) == WXor3(WRotr(x,17), WRotr(x,19), WShr(x,10))
Sha256Compress(h, blk) ==
  LET w0 == Words32BE(blk)
      w == Iter(LAMBDA ws, i : Append(ws, WAdd4(S256b(ws[i+15]), ws[i+10], S256a(ws[i+2]), ws[i+1])), w0, 48)
      v == Iter(LAMBDA s, i :
             LET e == s[5]
                 t1 == WAdd5(s[8], WXor3(WRotr(e,6), WRotr(e,11), WRotr(e,25)),
                             WXor(WAnd(e, s[6]), WAnd(WNot(e), s[7])), K256[i+1], w[i+1])
                 t2 == WAdd(WXor3(WRotr(s[1],2), WRotr(s[1],13), WRotr(s[1],22)),
                            WXor3(WAnd(s[1],s[2]), WAnd(s[1],s[3]), WAnd(s[2],s[3])))
             IN <<WAdd(t1,t2), s[1], s[2], s[3], WAdd(s[4],t1), s[5], s[6], s[7]>>, h, 64)
  IN <<WAdd(h[1],v[1]), WAdd(h[2],v[2]), WAdd(h[3],v[3]), WAdd(h[4],v[4]),
       WAdd(h[5],v[5]), WAdd(h[6],v[6]), WAdd(h[7],v[7]), WAdd(h[8],v[8])>>
Sha256Def(iv, m) == Cat32BE(Fold(Sha256Compress, iv, Blocks(MDPad(m, 64, 8, TRUE), 64)))

LOCAL S512a(x) == LXor3(LRotr(x,1), LRotr(x,8), LShr(x,7))
LOCAL S512b(x) == LXor3(LRotr(x,19), LRotr(x,61), LShr(x,6))
Sha512Compress(h, blk) ==
  LET w0 == Words64BE(blk)
      w == Iter(LAMBDA ws, i : Append(ws, LAdd4(S512b(ws[i+15]), ws[i+10], S512a(ws[i+2]), ws[i+1])), w0, 64)
      v == Iter(LAMBDA s, i :
             LET e == s[5]
                 t1 == LAdd5(s[8], LXor3(LRotr(e,14), LRotr(e,18), LRotr(e,41)),
                             LXor(LAnd(e, s[6]), LAndNot(e, s[7])), K512[i+1], w[i+1])
                 t2 == LAdd(LXor3(LRotr(s[1],28), LRotr(s[1],34), LRotr(s[1],39)),
                            LXor3(LAnd(s[1],s[2]), LAnd(s[1],s[3]), LAnd(s[2],s[3])))
             IN <<LAdd(t1,t2), s[1], s[2], s[3], LAdd(s[4],t1), s[5], s[6], s[7]>>, h, 80)
  IN <<LAdd(h[1],v[1]), LAdd(h[2],v[2]), LAdd(h[3],v[3]), LAdd(h[4],v[4]),
       LAdd(h[5],v[5]), LAdd(h[6],v[6]), LAdd(h[7],v[7]), LAdd(h[8],v[8])>>
Sha512Def(iv, m) == Cat64BE(Fold(Sha512Compress, iv, Blocks(MDPad(m, 128, 16, TRUE), 128)))

\* ---- SHA-1 ------------------------------------------------------------------
IVSha1 == HexWords32("67452301efcdab8998badcfe10325476c3d2e1f0")
LOCAL KSha1 == HexWords32("5a8279996ed9eba18f1bbcdcca62c1d6")
Sha1Compress(h, blk) ==
  LET w == Iter(LAMBDA ws, i : Append(ws, WRotl(WXor(WXor3(ws[i+14], ws[i+9], ws[i+3]), ws[i+1]), 1)), Words32BE(blk), 64)
      f(t, b, c, d) == IF t < 20 THEN WOr(WAnd(b,c), WAnd(WNot(b),d))
                       ELSE IF t < 40 \/ t >= 60 THEN WXor3(b,c,d)
                       ELSE WOr(WOr(WAnd(b,c), WAnd(b,d)), WAnd(c,d))
      v == Iter(LAMBDA s, t : <<WAdd5(WRotl(s[1],5), f(t,s[2],s[3],s[4]), s[5], w[t+1], KSha1[t \div 20 + 1]),
                               s[1], WRotl(s[2],30), s[3], s[4]>>, h, 80)
  IN <<WAdd(h[1],v[1]), WAdd(h[2],v[2]), WAdd(h[3],v[3]), WAdd(h[4],v[4]), WAdd(h[5],v[5])>>
Sha1Def(m) == Cat32BE(Fold(Sha1Compress, IVSha1, Blocks(MDPad(m, 64, 8, TRUE), 64)))

\* ---- MD5, MD4 ---------------------------------------------------------------
IVMd == HexWords32("67452301efcdab8998badcfe10325476")
LOCAL KMd5 == HexWords32("d76aa478e8c7b756242070dbc1bdceeef57c0faf4787c62aa8304613fd469501698098d88b44f7afffff5bb1895cd7be"
    \o "6b901122fd987193a679438e49b40821f61e2562c040b340265e5a51e9b6c7aad62f105d02441453d8a1e681e7d3fbc8"
    \o "21e1cde6c33707d6f4d50d87455a14eda9e3e905fcefa3f8676f02d98d2a4c8afffa39428771f6816d9d6122fde5380c"
    \o "a4beea444bdecfa9f6bb4b60bebfbc70289b7ec6eaa127fad4ef308504881d05d9d4d039e6db99e51fa27cf8c4ac5665"
    \o "f4292244432aff97ab9423a7fc93a039655b59c38f0ccc92ffeff47d85845dd16fa87e4ffe2ce6e0a30143144e0811a1"
    \o "f7537e82bd3af2352ad7d2bbeb86d391")
LOCAL SMd5 == << <<7,12,17,22>>, <<5,9,14,20>>, <<4,11,16,23>>, <<6,10,15,21>> >>
Md5Compress(h, blk) ==
  LET x == Words32LE(blk)
      f(r, b, c, d) == CASE r = 0 -> WOr(WAnd(b,c), WAnd(WNot(b),d))
                         [] r = 1 -> WOr(WAnd(d,b), WAnd(WNot(d),c))
                         [] r = 2 -> WXor3(b,c,d)
                         [] r = 3 -> WXor(c, WOr(b, WNot(d)))
      g(r, i) == CASE r = 0 -> i [] r = 1 -> (5*i+1) % 16 [] r = 2 -> (3*i+5) % 16 [] r = 3 -> (7*i) % 16
      v == Iter(LAMBDA s, i : LET r == i \div 16 IN
             <<s[4], WAdd(s[2], WRotl(WAdd4(s[1], f(r,s[2],s[3],s[4]), KMd5[i+1], x[g(r,i)+1]), SMd5[r+1][(i % 4) + 1])),
               s[2], s[3]>>, h, 64)
  IN <<WAdd(h[1],v[1]), WAdd(h[2],v[2]), WAdd(h[3],v[3]), WAdd(h[4],v[4])>>
Md5Def(m) == Cat32LE(Fold(Md5Compress, IVMd, Blocks(MDPad(m, 64, 8, FALSE), 64)))

LOCAL KMd4 == HexWords32("000000005a8279996ed9eba1")
LOCAL SMd4 == << <<3,7,11,19>>, <<3,5,9,13>>, <<3,9,11,15>> >>
LOCAL OMd4 == << <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<0,4,8,12,1,5,9,13,2,6,10,14,3,7,11,15>>,
                 <<0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15>> >>
Md4Compress(h, blk) ==
  LET x == Words32LE(blk)
      f(r, b, c, d) == CASE r = 0 -> WOr(WAnd(b,c), WAnd(WNot(b),d))
                         [] r = 1 -> WOr(WOr(WAnd(b,c), WAnd(b,d)), WAnd(c,d))
                         [] r = 2 -> WXor3(b,c,d)
      v == Iter(LAMBDA s, i : LET r == i \div 16 IN
             <<s[4], WRotl(WAdd4(s[1], f(r,s[2],s[3],s[4]), KMd4[r+1], x[OMd4[r+1][(i % 16) + 1]+1]), SMd4[r+1][(i % 4) + 1]),
               s[2], s[3]>>, h, 48)
  IN <<WAdd(h[1],v[1]), WAdd(h[2],v[2]), WAdd(h[3],v[3]), WAdd(h[4],v[4])>>
Md4Def(m) == Cat32LE(Fold(Md4Compress, IVMd, Blocks(MDPad(m, 64, 8, FALSE), 64)))

\* ---- MD2 --------------------------------------------------------------------
LOCAL SMd2 == Hex("292e43c9a2d87c013d3654a1ecf0061362a705f3c0c7738c98932bd9bc4c82ca1e9b573cfdd4e01667426f188a17e512"
    \o "be4ec4d6da9ede49a0fbf58ebb2fee7aa968799115b2073f94c210890b225f21807f5d9a5a903227353ecce7bff79703"
    \o "ff1930b348a5b5d1d75e922aac56aac64fb838d296a47db676fc6be29c7404f1459d705964718720865bcf65e62da802"
    \o "1b6025adaeb0b9f61c46616934407e0f5547a323dd51af3ac35cf9cebac5ea262c530d6e85288409d3dfcdf441814d52"
    \o "6adc37c86cc1abfa24e17b080cbdb14a7888958be363e86de9cbd5fe3b001d39f2efb70e6658d0e4a67772f8eb754b0a"
    \o "314450b48fed1f1adb998d339f118314")
Md2Def(m) ==
  LET pad == 16 - (Len(m) % 16)
      bs == Blocks(m \o Rep(pad, pad), 16)
      chk == Fold(LAMBDA c, b : Iter(LAMBDA st, j : LET l == WXor(st[2][j+1], SMd2[WXor(b[j+1], st[1]) + 1])
                                                    IN <<l, [st[2] EXCEPT ![j+1] = l]>>,
                                     <<c[16], c>>, 16)[2], Zeros(16), bs)
      rnd(x, j) == LET r == Iter(LAMBDA st, k : LET t == WXor(st[2][k+1], SMd2[st[1] + 1])
                                                IN <<t, [st[2] EXCEPT ![k+1] = t]>>, <<x[1], x[2]>>, 48)
                   IN <<(r[1] + j) % 256, r[2]>>
      comp(s, b) == Take(Iter(rnd, <<0, s \o b \o BXor(s, b)>>, 18)[2], 16)
  IN Fold(comp, Zeros(16), Append(bs, chk))

\* ---- RIPEMD-160 ---------------------------------------------------------------
LOCAL RLI == <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13>>
LOCAL RLS == <<11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6>>
LOCAL RRI == <<5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11>>
LOCAL RRS == <<8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11>>
LOCAL KRL == HexWords32("000000005a8279996ed9eba18f1bbcdca953fd4e")
LOCAL KRR == HexWords32("50a28be65c4dd1246d703ef37a6d76e900000000")
LOCAL FRmd(r, x, y, z) == CASE r = 0 -> WXor3(x,y,z)
                            [] r = 1 -> WOr(WAnd(x,y), WAnd(WNot(x),z))
                            [] r = 2 -> WXor(WOr(x, WNot(y)), z)
                            [] r = 3 -> WOr(WAnd(x,z), WAnd(y, WNot(z)))
                            [] r = 4 -> WXor(x, WOr(y, WNot(z)))
RmdCompress(h, blk) ==
  LET x == Words32LE(blk)
      line(I, S, K, fl) == Iter(LAMBDA s, i : LET r == i \div 16 IN
            <<s[5], WAdd(WRotl(WAdd4(s[1], FRmd(IF fl THEN 4 - r ELSE r, s[2], s[3], s[4]), x[I[i+1]+1], K[r+1]), S[i+1]), s[5]),
              s[2], WRotl(s[3], 10), s[4]>>, h, 80)
      a == line(RLI, RLS, KRL, FALSE)
      b == line(RRI, RRS, KRR, TRUE)
  IN <<WAdd3(h[2],a[3],b[4]), WAdd3(h[3],a[4],b[5]), WAdd3(h[4],a[5],b[1]), WAdd3(h[5],a[1],b[2]), WAdd3(h[1],a[2],b[3])>>
Rmd160Def(m) == Cat32LE(Fold(RmdCompress, IVSha1, Blocks(MDPad(m, 64, 8, FALSE), 64)))

\* ---- BLAKE2 -------------------------------------------------------------------
LOCAL BSigma == <<
  <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
  <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>, <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
  <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>, <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
  <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>, <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
  <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>, <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>
LOCAL BQ == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>, <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
LOCAL B2bG(v, q, x, y) ==
  LET a1 == LAdd3(v[q[1]], v[q[2]], x)
      d1 == LRotr(LXor(v[q[4]], a1), 32)
      c1 == LAdd(v[q[3]], d1)
      b1 == LRotr(LXor(v[q[2]], c1), 24)
      a2 == LAdd3(a1, b1, y)
      d2 == LRotr(LXor(d1, a2), 16)
      c2 == LAdd(c1, d2)
      b2 == LRotr(LXor(b1, c2), 63)
  IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
\* t = bytes hashed so far including this block, as a 64-bit word
B2bCompress(h, blk, t, last) ==
  LET m == Words64LE(blk)
      v0 == h \o <<IV512[1], IV512[2], IV512[3], IV512[4], LXor(IV512[5], t), IV512[6],
                   IF last THEN LNot(IV512[7]) ELSE IV512[7], IV512[8]>>
      v == Iter(LAMBDA u, n : LET s == BSigma[((n \div 8) % 10) + 1]
                                  j == n % 8
                              IN B2bG(u, BQ[j+1], m[s[2*j+1]+1], m[s[2*j+2]+1]), v0, 96)
  IN [i \in 1..8 |-> LXor3(h[i], v[i], v[i+8])]
LOCAL B2sG(v, q, x, y) ==
  LET a1 == WAdd3(v[q[1]], v[q[2]], x)
      d1 == WRotr(WXor(v[q[4]], a1), 16)
      c1 == WAdd(v[q[3]], d1)
      b1 == WRotr(WXor(v[q[2]], c1), 12)
      a2 == WAdd3(a1, b1, y)
      d2 == WRotr(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)
      b2 == WRotr(WXor(b1, c2), 7)
  IN [v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
B2sCompress(h, blk, t, last) ==
  LET m == Words32LE(blk)
      v0 == h \o <<IV256[1], IV256[2], IV256[3], IV256[4], WXor(IV256[5], t[2]), WXor(IV256[6], t[1]),
                   IF last THEN WNot(IV256[7]) ELSE IV256[7], IV256[8]>>
      v == Iter(LAMBDA u, n : LET s == BSigma[((n \div 8) % 10) + 1]
                                  j == n % 8
                              IN B2sG(u, BQ[j+1], m[s[2*j+1]+1], m[s[2*j+2]+1]), v0, 80)
  IN [i \in 1..8 |-> WXor3(h[i], v[i], v[i+8])]
\* common driver; bs is the block size
LOCAL B2(comp(_,_,_,_), h0, bs, key, m) ==
  LET d == (IF Len(key) > 0 THEN key \o Zeros(bs - Len(key)) ELSE <<>>) \o m
      n == IF Len(d) = 0 THEN 1 ELSE CeilDiv(Len(d), bs)
      p == d \o Zeros(n * bs - Len(d))
  IN Iter(LAMBDA h, i : comp(h, SubSeq(p, i*bs + 1, (i+1)*bs), <<0, IF i = n - 1 THEN Len(d) ELSE (i+1)*bs>>, i = n - 1), h0, n)
Blake2bDef(key, outlen, m) ==
  LET p == WOr(WOr(16842752, WShl(Len(key), 8)), outlen)
      h0 == [IV512 EXCEPT ![1] = LXor(IV512[1], <<0, p>>)]
  IN Take(Cat64LE(B2(B2bCompress, h0, 128, key, m)), outlen)
Blake2sDef(key, outlen, m) ==
  LET p == WOr(WOr(16842752, WShl(Len(key), 8)), outlen)
      h0 == [IV256 EXCEPT ![1] = WXor(IV256[1], p)]
  IN Take(Cat32LE(B2(B2sCompress, h0, 64, key, m)), outlen)

\* ---- Keccak -------------------------------------------------------------------
LOCAL KRC == HexWords64("00000000000000010000000000008082800000000000808a8000000080008000000000000000808b0000000080000001"
    \o "80000000800080818000000000008009000000000000008a00000000000000880000000080008009000000008000000a"
    \o "000000008000808b800000000000008b8000000000008089800000000000800380000000000080028000000000000080"
    \o "000000000000800a800000008000000a8000000080008081800000000000808000000000800000018000000080008008")
\* rotation offsets by lane x + 5y, from the rule of the rho step
LOCAL KRho == LET st == Iter(LAMBDA s, t : LET lane == s[1] + 5*s[2] IN
                      <<s[2], (2*s[1] + 3*s[2]) % 5, [s[3] EXCEPT ![lane+1] = (((t+1)*(t+2)) \div 2) % 64]>>,
                      <<1, 0, Zeros(25)>>, 24)
              IN st[3]
KeccakFDef(a0) ==
  Iter(LAMBDA a, r :
    LET c == Tup([x \in 1..5 |-> LXor3(LXor3(a[x], a[x+5], a[x+10]), a[x+15], a[x+20])])
        d == Tup([x \in 1..5 |-> LXor(c[((x+3) % 5) + 1], LRotl(c[(x % 5) + 1], 1))])
        \* b[y, 2x+3y] = rot(a[x,y])
        b == Tup([k \in 1..25 |-> LET yy == (k-1) % 5       \* new x = old y
                                  nx == (k-1) \div 5     \* new y = 2*oldx + 3*oldy
                                  ox == ((nx + 2*yy) * 3) % 5  \* oldx = (newy - 3*oldy)/2 mod 5
                                  o == ox + 5*yy + 1
                              IN LRotl(LXor(a[o], d[ox+1]), KRho[o])])
        e == Tup([k \in 1..25 |-> LET x == (k-1) % 5
                                  y5 == 5 * ((k-1) \div 5)
                              IN LXor(b[k], LAndNot(b[((x+1) % 5) + y5 + 1], b[((x+2) % 5) + y5 + 1]))])
    IN [e EXCEPT ![1] = LXor(e[1], KRC[r+1])], a0, 24)
KeccakF(a) == KeccakFDef(a)        \* accelerated
KeccakAbsorb(rate, pad, m) ==
  LET z == rate - (Len(m) % rate)
      p == IF z = 1 THEN m \o <<WOr(pad, 128)>> ELSE m \o <<pad>> \o Zeros(z - 2) \o <<128>>
  IN Fold(LAMBDA a, blk : LET w == Words64LE(blk)
                          IN KeccakF(Tup([k \in 1..25 |-> IF k <= Len(w) THEN LXor(a[k], w[k]) ELSE a[k]])),
          [k \in 1..25 |-> L0], Blocks(p, rate))
KeccakDef(rate, pad, outlen, m) ==
  LET RECURSIVE Sq(_, _)
      Sq(a, n) == IF n <= rate THEN Take(Cat64LE(a), n)
                  ELSE Take(Cat64LE(a), rate) \o Sq(KeccakF(a), n - rate)
  IN Sq(KeccakAbsorb(rate, pad, m), outlen)

\* ---- Whirlpool ----------------------------------------------------------------
LOCAL WS == Hex("1823c6e887b8014f36a6d2f5796f915260bc9b8ea30c7b351de0d7c22e4bfe57157737e59ff04ada58c9290ab1a06b85"
    \o "bd5d10f4cb3e0567e427418ba77d95d8fbee7c66dd17479eca2dbf07ad5a83336302aa71c81949d9f2e35b889a2632b0"
    \o "e90fd580becd3448ff7a905f20681aaeb454932264f173124008c3ecdba18d3d9700cf2b7682d61bb5af6a5045f330ef"
    \o "3f55a2ea65ba2fc0de1cfd4d9275068ab2e60e1f62d4a896f9c525598472394c5e78388cd1a5e261b3219c1e43c7fc04"
    \o "51996d0dfadf7e243babce118f4eb7eb3c8194f7b9132cd3e76ec40356447fa92abbc153dc0b9d6c3174f646ac8914e1"
    \o "163a690970b6d0edcc4298a4285cf886")
LOCAL GfMul2(a) == IF a >= 128 THEN WXor((2*a) % 256, 29) ELSE 2*a      \* x^8+x^4+x^3+x^2+1
LOCAL WT == [v \in 0..255 |-> LET s == WS[v+1]
                                  s2 == GfMul2(s)
                                  s4 == GfMul2(s2)
                                  s8 == GfMul2(s4)
                              IN L64BE(<<s, s, s4, s, s8, WXor(s4, s), s2, WXor(s8, s)>>, 0)]
LOCAL WRow(st, i) == Iter(LAMBDA acc, k : LXor(acc, LRotr(WT[LByte(st[((i - 1 + 8 - k) % 8) + 1], 7 - k)], 8*k)), L0, 8)
LOCAL WRound(st, key) == [i \in 1..8 |-> LXor(WRow(st, i), key[i])]
LOCAL WRC == [r \in 0..9 |-> L64BE(SubSeq(WS, 8*r + 1, 8*r + 8), 0)]
WhirlCompress(h, blk) ==
  LET b == Words64BE(blk)
      v == Iter(LAMBDA ks, r : LET k2 == WRound(ks[1], [i \in 1..8 |-> IF i = 1 THEN WRC[r] ELSE L0])
                               IN <<k2, WRound(ks[2], k2)>>,
                <<h, [i \in 1..8 |-> LXor(h[i], b[i])]>>, 10)
  IN [i \in 1..8 |-> LXor3(h[i], v[2][i], b[i])]
WhirlpoolDef(m) == Cat64BE(Fold(WhirlCompress, [i \in 1..8 |-> L0], Blocks(MDPad(m, 64, 32, TRUE), 64)))

\* ---- GOST R 34.11-94, CryptoPro parameters --------------------------------------
LOCAL GS == << <<10,4,5,6,8,1,3,7,13,12,14,0,9,2,11,15>>, <<5,15,4,0,2,13,11,9,1,7,6,3,12,14,10,8>>,
               <<7,15,12,14,9,4,1,0,3,11,5,2,6,10,8,13>>, <<4,10,7,12,0,15,2,8,14,1,6,5,13,11,9,3>>,
               <<7,6,4,11,9,12,2,10,1,8,0,14,15,13,3,5>>, <<7,6,2,4,13,9,15,0,10,1,5,11,8,14,12,3>>,
               <<13,14,4,1,7,0,5,10,3,12,8,15,6,2,9,11>>, <<1,3,10,9,5,11,4,15,8,6,7,14,13,0,2,12>> >>
LOCAL GF(x, k) == LET t == WAdd(x, k)
                  IN WRotl(Iter(LAMBDA z, j : WOr(z, WShl(GS[j+1][WAnd(WShr(t, 4*j), 15) + 1], 4*j)), 0, 8), 11)
LOCAL GE(blk, key) ==
  LET k == Words32LE(key)
      v == Iter(LAMBDA s, i : <<WXor(s[2], GF(s[1], k[IF i < 24 THEN (i % 8) + 1 ELSE 32 - i])), s[1]>>,
                <<W32LE(blk, 0), W32LE(blk, 4)>>, 32)
  IN LE32(v[2]) \o LE32(v[1])
LOCAL GA(x) == Drop(x, 8) \o BXor(Take(x, 8), SubSeq(x, 9, 16))
LOCAL GP(x) == [j \in 1..32 |-> x[8 * ((j-1) % 4) + ((j-1) \div 4) + 1]]
LOCAL GZ(x) == Drop(x, 2) \o <<WXor3(WXor3(x[1],x[3],x[5]), WXor(x[7],x[25]), x[31]), WXor3(WXor3(x[2],x[4],x[6]), WXor(x[8],x[26]), x[32])>>
LOCAL GC == Hex("00ff00ff00ff00ffff00ff00ff00ff0000ffff00ff0000ffff000000ffff00ff")
GostCompress(s, m) ==
  LET u1 == s
      v1 == m
      u2 == GA(u1)
      v2 == GA(GA(v1))
      u3 == BXor(GA(u2), GC)
      v3 == GA(GA(v2))
      u4 == GA(u3)
      v4 == GA(GA(v3))
      t == GE(SubSeq(s, 1, 8), GP(BXor(u1, v1))) \o GE(SubSeq(s, 9, 16), GP(BXor(u2, v2)))
           \o GE(SubSeq(s, 17, 24), GP(BXor(u3, v3))) \o GE(SubSeq(s, 25, 32), GP(BXor(u4, v4)))
      z(x, n) == Iter(LAMBDA y, i : GZ(y), x, n)
  IN z(BXor(s, z(BXor(z(t, 12), m), 1)), 61)
LOCAL GSum(a, b) == Iter(LAMBDA st, i : LET c == st[1] + a[i+1] + b[i+1] IN <<c \div 256, Append(st[2], c % 256)>>, <<0, <<>> >>, 32)[2]
Gost94Def(m) ==
  LET n == CeilDiv(Len(m), 32)
      bs == Blocks(m \o Zeros(n*32 - Len(m)), 32)
      h == Fold(LAMBDA st, b : <<GostCompress(st[1], b), GSum(st[2], b)>>, <<Zeros(32), Zeros(32)>>, bs)
  IN GostCompress(GostCompress(h[1], LE64(BitLen64(Len(m))) \o Zeros(24)), h[2])

\* ---- The library's hash identifiers ----------------------------------------------
\* id -> <<digest size, block size>>
HashIds == <<"blake2b160","blake2b256","blake2b384","blake2b512","blake2s128","blake2s160","blake2s224","blake2s256",
  "gost94","hash160","hash256","keccak224","keccak256","keccak384","keccak512","md2","md4","md5","md5sha1","ripemd160",
  "sha1","sha224","sha256","sha384","sha512","sha3_224","sha3_256","sha3_384","sha3_512","shake128","shake256","whirlpool">>
HashSize(a) == CASE a = "blake2b160" -> 20 [] a = "blake2b256" -> 32 [] a = "blake2b384" -> 48 [] a = "blake2b512" -> 64
  [] a = "blake2s128" -> 16 [] a = "blake2s160" -> 20 [] a = "blake2s224" -> 28 [] a = "blake2s256" -> 32
  [] a = "gost94" -> 32 [] a = "hash160" -> 20 [] a = "hash256" -> 32
  [] a = "keccak224" -> 28 [] a = "keccak256" -> 32 [] a = "keccak384" -> 48 [] a = "keccak512" -> 64
  [] a = "md2" -> 16 [] a = "md4" -> 16 [] a = "md5" -> 16 [] a = "md5sha1" -> 36 [] a = "ripemd160" -> 20
  [] a = "sha1" -> 20 [] a = "sha224" -> 28 [] a = "sha256" -> 32 [] a = "sha384" -> 48 [] a = "sha512" -> 64
  [] a = "sha3_224" -> 28 [] a = "sha3_256" -> 32 [] a = "sha3_384" -> 48 [] a = "sha3_512" -> 64
  [] a = "shake128" -> 16 [] a = "shake256" -> 32 [] a = "whirlpool" -> 64 [] OTHER -> 0
HashBlock(a) == CASE a \in {"blake2b160","blake2b256","blake2b384","blake2b512","sha384","sha512"} -> 128
  [] a = "gost94" -> 32 [] a = "md2" -> 16
  [] a \in {"keccak224","sha3_224"} -> 144 [] a \in {"keccak256","sha3_256","shake256"} -> 136
  [] a \in {"keccak384","sha3_384"} -> 104 [] a \in {"keccak512","sha3_512"} -> 72 [] a = "shake128" -> 168
  [] a = "none" -> 0 [] OTHER -> 64

\* outlen matters only for the extendable-output functions
HashDefX(a, outlen, m) ==
  CASE a = "blake2b160" -> Blake2bDef(<<>>, 20, m) [] a = "blake2b256" -> Blake2bDef(<<>>, 32, m)
    [] a = "blake2b384" -> Blake2bDef(<<>>, 48, m) [] a = "blake2b512" -> Blake2bDef(<<>>, 64, m)
    [] a = "blake2s128" -> Blake2sDef(<<>>, 16, m) [] a = "blake2s160" -> Blake2sDef(<<>>, 20, m)
    [] a = "blake2s224" -> Blake2sDef(<<>>, 28, m) [] a = "blake2s256" -> Blake2sDef(<<>>, 32, m)
    [] a = "gost94" -> Gost94Def(m)
    [] a = "hash160" -> Rmd160Def(Sha256Def(IV256, m)) [] a = "hash256" -> Sha256Def(IV256, Sha256Def(IV256, m))
    [] a = "keccak224" -> KeccakDef(144, 1, 28, m) [] a = "keccak256" -> KeccakDef(136, 1, 32, m)
    [] a = "keccak384" -> KeccakDef(104, 1, 48, m) [] a = "keccak512" -> KeccakDef(72, 1, 64, m)
    [] a = "md2" -> Md2Def(m) [] a = "md4" -> Md4Def(m) [] a = "md5" -> Md5Def(m)
    [] a = "md5sha1" -> Md5Def(m) \o Sha1Def(m) [] a = "ripemd160" -> Rmd160Def(m) [] a = "sha1" -> Sha1Def(m)
    [] a = "sha224" -> Take(Sha256Def(IV224, m), 28) [] a = "sha256" -> Sha256Def(IV256, m)
    [] a = "sha384" -> Take(Sha512Def(IV384, m), 48) [] a = "sha512" -> Sha512Def(IV512, m)
    [] a = "sha3_224" -> KeccakDef(144, 6, 28, m) [] a = "sha3_256" -> KeccakDef(136, 6, 32, m)
    [] a = "sha3_384" -> KeccakDef(104, 6, 48, m) [] a = "sha3_512" -> KeccakDef(72, 6, 64, m)
    [] a = "shake128" -> KeccakDef(168, 31, outlen, m) [] a = "shake256" -> KeccakDef(136, 31, outlen, m)
    [] a = "whirlpool" -> WhirlpoolDef(m)
HashDef(a, m) == HashDefX(a, HashSize(a), m)

\* ---- Accelerated evaluation ---------------------------------------------------
JdkName(a) == CASE a = "md2" -> "MD2" [] a = "md5" -> "MD5" [] a = "sha1" -> "SHA-1" [] a = "sha224" -> "SHA-224"
  [] a = "sha256" -> "SHA-256" [] a = "sha384" -> "SHA-384" [] a = "sha512" -> "SHA-512" [] a = "sha3_224" -> "SHA3-224"
  [] a = "sha3_256" -> "SHA3-256" [] a = "sha3_384" -> "SHA3-384" [] a = "sha3_512" -> "SHA3-512" [] OTHER -> ""
JdkHash(name, m) == HashDef(CHOOSE a \in {HashIds[i] : i \in 1..Len(HashIds)} : JdkName(a) = name, m)
HashF(a, m) == IF JdkName(a) # "" THEN JdkHash(JdkName(a), m)
               ELSE CASE a = "hash256" -> JdkHash("SHA-256", JdkHash("SHA-256", m))
                      [] a = "hash160" -> Rmd160Def(JdkHash("SHA-256", m))
                      [] a = "md5sha1" -> JdkHash("MD5", m) \o JdkHash("SHA-1", m)
                      [] OTHER -> HashDef(a, m)
HashFX(a, outlen, m) == IF a \in {"shake128", "shake256"} THEN HashDefX(a, outlen, m) ELSE HashF(a, m)

\* ---- HMAC (RFC 2104) ------------------------------------------------------------
Hmac(a, key, m) ==
  LET bs == HashBlock(a)
      k == IF Len(key) > bs THEN HashF(a, key) ELSE key
      kp == k \o Zeros(bs - Len(k))
  IN HashF(a, BXor(kp, Rep(92, bs)) \o HashF(a, BXor(kp, Rep(54, bs)) \o m))
=============================================================================
