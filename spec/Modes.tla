-------------------------------- MODULE Modes -------------------------------
(***************************************************************************)
(* Modes of operation.  A mode is given by what it does to the next whole  *)
(* block (or keystream block) from a chaining value, by how it ends, and   *)
(* for authenticated modes by the tag over all data.  A stream (the object *)
(* of C04 and C05) is a mode plus the input bytes it has not yet released. *)
(***************************************************************************)
EXTENDS Cipher

BlockModes == {"raw", "ecb", "cbc", "cts", "xts"}
AeadModes == {"gcm", "ccm", "eax"}

\* ---- block modes: <<next chaining value, output block>> ---------------------------
\* multiplication by x in GF(2^64), GF(2^128), least significant byte first
Double(t) ==
  LET n == Len(t)
      d == Tup([i \in 1..n |-> ((2 * t[i]) % 256) + (IF i = 1 THEN 0 ELSE t[i-1] \div 128)])
  IN IF t[n] >= 128 THEN [d EXCEPT ![1] = WXor(@, IF n = 8 THEN 27 ELSE 135)] ELSE d
\* the same, most significant byte first (CMAC)
DoubleBE(t) == Rev(Double(Rev(t)))
Xex(s, t, b) == BXor(Enc(s, BXor(b, t)), t)
XexD(s, t, b) == BXor(Dec(s, BXor(b, t)), t)
BlkStep(mode, enc, s, c, b) ==
  CASE mode \in {"raw", "ecb"} -> <<c, IF enc THEN Enc(s, b) ELSE Dec(s, b)>>
    [] mode \in {"cbc", "cts"} -> IF enc THEN LET y == Enc(s, BXor(b, c)) IN <<y, y>> ELSE <<b, BXor(Dec(s, b), c)>>
    [] mode = "xts" -> <<Double(c), IF enc THEN Xex(s, c, b) ELSE XexD(s, c, b)>>
BlkRun(mode, enc, s, c, bytes, bs) ==
  Fold(LAMBDA x, b : LET y == BlkStep(mode, enc, s, x[1], b) IN <<y[1], x[2] \o y[2]>>, <<c, <<>>>>, Blocks(bytes, bs))

\* ---- PKCS #7 ----------------------------------------------------------------------
P7Pad(b, n) == b \o Rep(n - Len(b), n - Len(b))
P7Ok(b) == LET k == b[Len(b)] IN k >= 1 /\ k <= Len(b) /\ \A i \in (Len(b) - k + 1)..Len(b) : b[i] = k
P7Strip(b) == Take(b, Len(b) - b[Len(b)])

\* ---- ciphertext stealing: the held block and d trailing bytes ------------------------
CtsEnc(s, c, held, part) ==
  LET e == Enc(s, BXor(held, c)) IN Enc(s, BXor(e, part \o Zeros(Len(e) - Len(part)))) \o Take(e, Len(part))
CtsDec(s, c, held, part) ==
  LET d == Dec(s, held)
      n == Len(part)
  IN BXor(Dec(s, part \o Drop(d, n)), c) \o BXor(part, d)
XtsEnc(s, t, held, part) ==
  LET cc == Xex(s, t, held)
      n == Len(part)
  IN IF n = 0 THEN cc ELSE Xex(s, Double(t), part \o Drop(cc, n)) \o Take(cc, n)
XtsDec(s, t, held, part) ==
  LET n == Len(part)
      pp == XexD(s, Double(t), held)
  IN IF n = 0 THEN XexD(s, t, held) ELSE XexD(s, t, part \o Drop(pp, n)) \o Take(pp, n)
\* ECB stealing as offered on blocks: swap the heads, transform the last block
EcbSteal(enc, s, last, part) ==
  LET l == part \o Drop(last, Len(part)) IN <<IF enc THEN Enc(s, l) ELSE Dec(s, l), Take(last, Len(part))>>

\* ---- keystream modes ---------------------------------------------------------------------
\* big-endian increment of the last k bytes
IncBE(b, k) ==
  LET n == Len(b)
      RECURSIVE F(_, _)
      F(x, i) == IF i = n - k THEN x ELSE IF x[i] = 255 THEN F([x EXCEPT ![i] = 0], i - 1) ELSE [x EXCEPT ![i] = @ + 1]
  IN F(b, n)
\* state of a keystream: v = register, ks = unused keystream, fb = ciphertext of the running block (cfb)
KsInit(v) == [v |-> v, ks |-> <<>>, fb |-> <<>>]
KsNext(mode, s, k) ==
  CASE mode \in {"ctr", "eax", "ccm"} -> [v |-> IncBE(k.v, Len(k.v)), ks |-> Enc(s, k.v), fb |-> <<>>]
    [] mode = "gcm" -> [v |-> IncBE(k.v, 4), ks |-> Enc(s, k.v), fb |-> <<>>]
    [] mode = "ofb" -> LET e == Enc(s, k.v) IN [v |-> e, ks |-> e, fb |-> <<>>]
    [] mode = "cfb" -> [v |-> k.v, ks |-> Enc(s, k.v), fb |-> <<>>]
\* process bytes: <<state, output>>
LOCAL KsPart(mode, enc, s, k0, bytes) ==
  LET RECURSIVE F(_, _, _)
      F(k, in, out) ==
        IF Len(in) = 0 THEN <<k, out>>
        ELSE IF Len(k.ks) = 0
        THEN F(KsNext(mode, s, IF mode = "cfb" /\ Len(k.fb) > 0 THEN [k EXCEPT !.v = k.fb] ELSE k), in, out)
        ELSE LET n == IF Len(in) < Len(k.ks) THEN Len(in) ELSE Len(k.ks)
                 a == Take(in, n)
                 o == BXor(a, k.ks)
             IN F([k EXCEPT !.ks = Drop(@, n), !.fb = IF mode = "cfb" THEN @ \o (IF enc THEN o ELSE a) ELSE @], Drop(in, n), out \o o)
  IN F(k0, bytes, <<>>)
RECURSIVE KsRun(_, _, _, _, _)
KsRun(mode, enc, s, k0, bytes) ==
  IF Len(bytes) <= 512 THEN KsPart(mode, enc, s, k0, bytes)
  ELSE LET h == Len(bytes) \div 2
           a == KsRun(mode, enc, s, k0, Take(bytes, h))
           b == KsRun(mode, enc, s, a[1], Drop(bytes, h))
       IN <<b[1], a[2] \o b[2]>>

\* ---- GCM (SP 800-38D) --------------------------------------------------------------------
\* product in GF(2^128), bits in GCM order; elements are pairs of 64-bit words
GfMulDef(x, y) ==
  LET bit(i) == LET w == x[(i \div 64) + 1] j == i % 64 IN Bit(w[(j \div 32) + 1], 31 - (j % 32))
      step(a, i) == [z |-> IF bit(i) = 1 THEN <<LXor(a.z[1], a.v[1]), LXor(a.z[2], a.v[2])>> ELSE a.z,
                     v |-> LET sh == <<LShr(a.v[1], 1), LOr(LShr(a.v[2], 1), LShl(a.v[1], 63))>>
                           IN IF Bit(a.v[2][2], 0) = 1 THEN <<LXor(sh[1], <<WShl(225, 24), 0>>), sh[2]>> ELSE sh]
  IN Iter(step, [z |-> <<L0, L0>>, v |-> y], 128).z
GfMul(x, y) == GfMulDef(x, y)
LOCAL Pad16(b) == b \o Zeros((16 - (Len(b) % 16)) % 16)
LOCAL GBlk(b) == <<L64BE(b, 0), L64BE(b, 8)>>
\* h is a 16 byte block
Ghash(h, bytes) ==
  LET y == Fold(LAMBDA z, b : GfMul(LET g == GBlk(b) IN <<LXor(z[1], g[1]), LXor(z[2], g[2])>>, GBlk(h)), <<L0, L0>>, Blocks(bytes, 16))
  IN BE64(y[1]) \o BE64(y[2])
GcmH(s) == Enc(s, Zeros(16))
GcmJ0(s, iv) == IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>>
                ELSE Ghash(GcmH(s), Pad16(iv) \o Zeros(8) \o BE64(BitLen64(Len(iv))))
GcmTag(s, iv, aad, ct) ==
  BXor(Enc(s, GcmJ0(s, iv)), Ghash(GcmH(s), Pad16(aad) \o Pad16(ct) \o BE64(BitLen64(Len(aad))) \o BE64(BitLen64(Len(ct)))))

\* ---- CCM (RFC 3610) ----------------------------------------------------------------------
\* size of the length field for a nonce of n bytes and a message of m bytes; the library takes the
\* nonce to be the first 15 - L bytes of what it is given (as sjcl does)
LOCAL Bytes(m) == IF m < 65536 THEN 2 ELSE IF m < 16777216 THEN 3 ELSE 4
CcmL(n, m) == LET k == IF n > 13 THEN 13 ELSE n IN IF 15 - k > Bytes(m) THEN 15 - k ELSE Bytes(m)
CcmNonce(iv, L) == Take(iv, 15 - L)
CcmCtr0(iv, L) == <<L - 1>> \o CcmNonce(iv, L) \o Zeros(L)
CbcMac(s, bytes) == Fold(LAMBDA z, b : Enc(s, BXor(z, b)), Zeros(16), Blocks(bytes, 16))
CcmTag(s, iv, taglen, aad, pt, mlen) ==
  LET L == CcmL(Len(iv), mlen)
      b0 == <<(IF Len(aad) > 0 THEN 64 ELSE 0) + 8 * ((taglen - 2) \div 2) + L - 1>> \o CcmNonce(iv, L) \o IntBE(mlen, L)
      al == IF Len(aad) = 0 THEN <<>> ELSE IF Len(aad) < 65280 THEN IntBE(Len(aad), 2) ELSE <<255, 254>> \o IntBE(Len(aad), 4)
  IN Take(BXor(CbcMac(s, b0 \o Pad16(al \o aad) \o Pad16(pt)), Enc(s, CcmCtr0(iv, L))), taglen)

\* ---- CMAC / EAX --------------------------------------------------------------------------
Cmac(s, bs, m) ==
  LET l == DoubleBE(Enc(s, Zeros(bs)))
      n == IF Len(m) = 0 THEN 0 ELSE (Len(m) - 1) \div bs
      last == Drop(m, n * bs)
      x == Fold(LAMBDA z, b : Enc(s, BXor(z, b)), Zeros(bs), Blocks(Take(m, n * bs), bs))
      fin == IF Len(last) = bs THEN BXor(last, l) ELSE BXor(last \o <<128>> \o Zeros(bs - 1 - Len(last)), DoubleBE(l))
  IN Enc(s, BXor(x, fin))
Omac(s, bs, t, m) == Cmac(s, bs, Zeros(bs - 1) \o <<t>> \o m)
EaxTag(s, bs, iv, aad, ct) == BXor(BXor(Omac(s, bs, 0, iv), Omac(s, bs, 1, aad)), Omac(s, bs, 2, ct))

\* ---- streams -------------------------------------------------------------------------------
NoStream == [ok |-> FALSE]
IvOk(mode, bs, n) ==
  CASE mode \in {"raw", "ecb"} -> n = 0
    [] mode \in {"cbc", "cts", "xts", "ctr", "cfb", "ofb"} -> n = bs
    [] mode = "gcm" -> bs = 16
    [] mode = "ccm" -> bs = 16 /\ n >= 7
    [] mode = "eax" -> n > 0
StreamOk(id, mode, key, iv) ==
  LET h == Len(key) \div 2 IN
  /\ (mode = "xts") => (Len(key) > 0 /\ Len(key) % 2 = 0 /\ Take(key, h) # Drop(key, h))
  /\ KeyOk(id, IF mode = "xts" THEN h ELSE Len(key))
  /\ IvOk(mode, BlockSize(id), Len(iv))
Stream(id, mode, enc, key, iv) ==
  IF ~StreamOk(id, mode, key, iv) THEN NoStream
  ELSE LET h == Len(key) \div 2
           s == Sched(id, IF mode = "xts" THEN Take(key, h) ELSE key)
           bs == BlockSize(id)
       IN [ok |-> TRUE, id |-> id, bs |-> bs, mode |-> mode, enc |-> enc, s |-> s, iv |-> iv,
           pad |-> TRUE, buf |-> <<>>, any |-> FALSE,
           c |-> CASE mode \in BlockModes -> IF mode = "xts" THEN Enc(Sched(id, Drop(key, h)), iv) ELSE iv
                   [] mode \in {"ctr", "cfb", "ofb"} -> KsInit(iv)
                   [] mode = "gcm" -> KsInit(IncBE(GcmJ0(s, iv), 4))
                   [] mode = "ccm" -> KsInit(<<>>)
                   [] mode = "eax" -> KsInit(Omac(s, bs, 0, iv)),
           aad |-> <<>>, text |-> <<>>,            \* text: what the tag covers (ciphertext, for CCM plaintext)
           ccm |-> 0, mlen |-> 0,
           tag |-> <<>>, done |-> FALSE]
\* a block stream that may have to treat the last block specially keeps it back
Holds(t) == t.pad /\ (t.mode \in {"cts", "xts"} \/ (t.mode \in {"ecb", "cbc"} /\ ~t.enc))
CanSetPadding(t) == /\ t.mode \in {"ecb", "cbc", "cts", "xts"}
                    /\ (~t.enc \/ t.mode \in {"cts", "xts"}) => t.buf = <<>>
Released(t, n) == LET k == n \div t.bs IN t.bs * (IF Holds(t) /\ k > 0 THEN k - 1 ELSE k)
UpdateSize(t, n) ==
  IF t.mode \notin BlockModes THEN n
  ELSE IF (Len(t.buf) % t.bs) + n < t.bs THEN 0
  ELSE t.bs * ((Len(t.buf) + n) \div t.bs)
\* <<next, output>>
Update(t, data) ==
  IF t.mode \in BlockModes
  THEN LET all == t.buf \o data
           n == Released(t, Len(all))
           r == BlkRun(t.mode, t.enc, t.s, t.c, Take(all, n), t.bs)
       IN <<[t EXCEPT !.c = r[1], !.buf = Drop(all, n)], r[2]>>
  ELSE LET r == KsRun(t.mode, t.enc, t.s, t.c, data)
           cov == IF t.mode = "ccm" THEN (IF t.enc THEN data ELSE r[2]) ELSE (IF t.enc THEN r[2] ELSE data)
       IN <<[t EXCEPT !.c = r[1], !.text = IF t.mode \in AeadModes THEN @ \o cov ELSE @], r[2]>>
FinalSize(t) ==
  IF t.mode \in {"ecb", "cbc"} /\ t.pad THEN t.bs
  ELSE IF t.mode \in {"cts", "xts"} /\ t.pad THEN t.bs + (Len(t.buf) % t.bs) ELSE 0
Tag(t) == CASE t.mode = "gcm" -> GcmTag(t.s, t.iv, t.aad, t.text)
            [] t.mode = "ccm" -> CcmTag(t.s, t.iv, t.ccm, t.aad, t.text, t.mlen)
            [] t.mode = "eax" -> EaxTag(t.s, t.bs, t.iv, t.aad, t.text)
\* <<success, output>>
Final(t) ==
  LET part == Len(t.buf) % t.bs
      held == Take(t.buf, t.bs)
      rest == Drop(t.buf, t.bs)
  IN CASE t.mode = "raw" \/ (t.mode \in BlockModes /\ ~t.pad) -> <<part = 0, <<>>>>
       [] t.mode \in {"ecb", "cbc"} /\ t.enc -> <<TRUE, BlkStep(t.mode, TRUE, t.s, t.c, P7Pad(t.buf, t.bs))[2]>>
       [] t.mode \in {"ecb", "cbc"} /\ ~t.enc ->
            IF Len(t.buf) # t.bs THEN <<FALSE, <<>>>>
            ELSE LET b == BlkStep(t.mode, FALSE, t.s, t.c, t.buf)[2] IN IF P7Ok(b) THEN <<TRUE, P7Strip(b)>> ELSE <<FALSE, <<>>>>
       [] t.mode = "cts" -> IF Len(t.buf) < t.bs THEN <<FALSE, <<>>>>
                            ELSE <<TRUE, IF t.enc THEN CtsEnc(t.s, t.c, held, rest) ELSE CtsDec(t.s, t.c, held, rest)>>
       [] t.mode = "xts" -> IF Len(t.buf) < t.bs THEN <<FALSE, <<>>>>
                            ELSE <<TRUE, IF t.enc THEN XtsEnc(t.s, t.c, held, rest) ELSE XtsDec(t.s, t.c, held, rest)>>
       [] t.mode \in {"ctr", "cfb", "ofb"} -> <<TRUE, <<>>>>
       [] t.mode \in AeadModes ->
            IF t.mode = "ccm" /\ t.ccm = 0 THEN <<FALSE, <<>>>>
            ELSE IF t.enc THEN <<TRUE, <<>>>>
            ELSE <<Len(t.tag) > 0 /\ Take(Tag(t), Len(t.tag)) = t.tag, <<>>>>
\* tag lengths accepted for verification
TagOk(t, n) == CASE t.mode = "gcm" -> n \in {4, 8, 12, 13, 14, 15, 16}
                 [] t.mode = "ccm" -> t.ccm # 0 /\ n = t.ccm
                 [] t.mode = "eax" -> n \in 1..t.bs
                 [] OTHER -> FALSE
CcmOk(t, taglen) == t.mode = "ccm" /\ t.ccm = 0 /\ taglen \in {4, 6, 8, 10, 12, 14, 16}
\* the whole operation on a message
Whole(t0, data) == LET u == Update(t0, data) f == Final(u[1]) IN <<f[1], IF f[1] THEN u[2] \o f[2] ELSE <<>>>>
=============================================================================
