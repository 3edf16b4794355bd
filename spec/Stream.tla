------------------------------- MODULE Stream ------------------------------
(***************************************************************************)
(* ARC4, ChaCha20, Salsa20 (with their extended nonces), Poly1305, the     *)
(* ChaCha20-Poly1305 construction of RFC 8439 and the NaCl secret box.     *)
(***************************************************************************)
EXTENDS Words, BigInt

\* ---- ARC4 ---------------------------------------------------------------------------------
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Arc4InitDef(key) ==
  LET k == Len(key)
      st(a, i) == LET j == (a.j + a.s[i] + key[(i % k) + 1]) % 256 IN [s |-> Swap(a.s, i, j), j |-> j]
  IN [s |-> Iter(st, [s |-> [i \in 0..255 |-> i], j |-> 0], 256).s, i |-> 0, j |-> 0]
\* n keystream bytes: <<state, bytes>>
Arc4NextDef(c, n) ==
  LET st(a, k) == LET i == (a[1].i + 1) % 256
                      j == (a[1].j + a[1].s[i]) % 256
                      s == Swap(a[1].s, i, j)
                  IN <<[s |-> s, i |-> i, j |-> j], Append(a[2], s[(s[i] + s[j]) % 256])>>
  IN Iter(st, <<c, <<>>>>, n)
\* the first n bytes of the keystream of a key
Arc4Bytes(key, n) == Arc4NextDef(Arc4InitDef(key), n)[2]

\* ---- ChaCha20 / Salsa20 -------------------------------------------------------------------
\* 20 rounds without the final addition; 16 words
QRc(x, a, b, c, d) ==
  LET a1 == WAdd(x[a], x[b])      d1 == WRotl(WXor(x[d], a1), 16)
      c1 == WAdd(x[c], d1)        b1 == WRotl(WXor(x[b], c1), 12)
      a2 == WAdd(a1, b1)          d2 == WRotl(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)          b2 == WRotl(WXor(b1, c2), 7)
  IN [x EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
ChaChaDef(x) ==
  Iter(LAMBDA y, i : LET e == QRc(QRc(QRc(QRc(y, 1, 5, 9, 13), 2, 6, 10, 14), 3, 7, 11, 15), 4, 8, 12, 16)
                     IN QRc(QRc(QRc(QRc(e, 1, 6, 11, 16), 2, 7, 12, 13), 3, 8, 9, 14), 4, 5, 10, 15), Tup(x), 10)
QRs(x, a, b, c, d) ==
  LET b1 == WXor(x[b], WRotl(WAdd(x[a], x[d]), 7))
      c1 == WXor(x[c], WRotl(WAdd(b1, x[a]), 9))
      d1 == WXor(x[d], WRotl(WAdd(c1, b1), 13))
      a1 == WXor(x[a], WRotl(WAdd(d1, c1), 18))
  IN [x EXCEPT ![a] = a1, ![b] = b1, ![c] = c1, ![d] = d1]
SalsaDef(x) ==
  Iter(LAMBDA y, i : LET e == QRs(QRs(QRs(QRs(y, 1, 5, 9, 13), 6, 10, 14, 2), 11, 15, 3, 7), 16, 4, 8, 12)
                     IN QRs(QRs(QRs(QRs(e, 1, 2, 3, 4), 6, 7, 8, 5), 11, 12, 9, 10), 16, 13, 14, 15), Tup(x), 10)
ChaCha(x) == ChaChaDef(x)
Salsa(x) == SalsaDef(x)

Sigma(key) == Words32LE(Hex(IF Len(key) = 32 THEN "657870616e642033322d62797465206b" ELSE "657870616e642031362d62797465206b"))
Keys(key) == Words32LE(IF Len(key) = 32 THEN key ELSE key \o key)
\* the state for a 16 byte tail (counter and nonce words in the cipher's order)
ChaState(key, tail) == Sigma(key) \o Keys(key) \o Words32LE(tail)
SalState(key, tail) == LET s == Sigma(key) k == Keys(key) t == Words32LE(tail)
                       IN <<s[1]>> \o SubSeq(k, 1, 4) \o <<s[2]>> \o t \o <<s[3]>> \o SubSeq(k, 5, 8) \o <<s[4]>>
ChaDerive(key, n16) == LET x == ChaCha(ChaState(key, n16)) IN Cat32LE(SubSeq(x, 1, 4) \o SubSeq(x, 13, 16))
SalDerive(key, n16) == LET x == Salsa(SalState(key, n16)) IN Cat32LE(<<x[1], x[6], x[11], x[16]>> \o SubSeq(x, 7, 10))
Derive(f, key, n16) == IF f = "chacha20" THEN ChaDerive(key, n16) ELSE SalDerive(key, n16)

\* tail: a 64-bit little-endian block counter is at its start (ChaCha20) or end (Salsa20); ctr = <<hi, lo>>.
\* The ChaCha20 form with a 12 byte nonce has a 32-bit initial counter; the library lets it carry on.
CtrTail(f, nonce, ctr) ==
  IF f = "chacha20"
  THEN CASE Len(nonce) = 8 -> LE64(ctr) \o nonce [] Len(nonce) = 12 -> LE32(ctr[2]) \o nonce [] Len(nonce) = 16 -> nonce
  ELSE CASE Len(nonce) = 8 -> nonce \o LE64(ctr) [] Len(nonce) = 12 -> nonce \o LE32(ctr[2]) [] Len(nonce) = 16 -> nonce
CtrOff(f) == IF f = "chacha20" THEN 0 ELSE 8
\* nonces of 24, 28 and 32 bytes: the key is derived from the first 16
Keyed(f, key, nonce, ctr) ==
  IF Len(nonce) >= 24 THEN [f |-> f, key |-> Derive(f, key, Take(nonce, 16)), tail |-> CtrTail(f, Drop(nonce, 16), ctr)]
  ELSE [f |-> f, key |-> key, tail |-> CtrTail(f, nonce, ctr)]
\* keystream block number k (k >= 0)
KsBlock(c, k) ==
  LET o == CtrOff(c.f)
      t == Take(c.tail, o) \o LE64(LAdd(L64LE(c.tail, o), <<0, k>>)) \o Drop(c.tail, o + 8)
      x == IF c.f = "chacha20" THEN ChaState(c.key, t) ELSE SalState(c.key, t)
      y == IF c.f = "chacha20" THEN ChaCha(x) ELSE Salsa(x)
  IN Cat32LE(Tup([i \in 1..16 |-> WAdd(x[i], y[i])]))
\* keystream bytes from position p (0-based), n of them
Ks(c, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET b0 == p \div 64
           b1 == (p + n - 1) \div 64
       IN SubSeq(Fold(LAMBDA a, k : a \o KsBlock(c, b0 + k - 1), <<>>, [k \in 1..(b1 - b0 + 1) |-> k]), (p % 64) + 1, (p % 64) + n)

\* ---- Poly1305 -----------------------------------------------------------------------------
P1305 == Z2(130) -- Z(5)
PolyR(key) == ZLE(Tup([i \in 1..16 |-> IF i \in {4, 8, 12, 16} THEN key[i] % 16 ELSE IF i \in {5, 9, 13} THEN 4 * (key[i] \div 4) ELSE key[i]]))
Poly1305(key, m) ==
  LET r == PolyR(key)
      n == CeilDiv(Len(m), 16)
      blk(i) == LET b == SubSeq(m, 16 * i + 1, IF 16 * i + 16 < Len(m) THEN 16 * i + 16 ELSE Len(m)) IN ZLE(b \o <<1>>)
      acc == Iter(LAMBDA a, i : ((a ++ blk(i)) ** r) %% P1305, Z(0), n)
  IN LEZ(acc ++ ZLE(Drop(key, 16)), 16)
PadTo16(m) == m \o Zeros((16 - (Len(m) % 16)) % 16)

\* ---- RFC 8439 -----------------------------------------------------------------------------
CpTag(c, aad, ct) == Poly1305(Take(KsBlock(c, 0), 32), PadTo16(aad) \o PadTo16(ct) \o LE64(<<0, Len(aad)>>) \o LE64(<<0, Len(ct)>>))
\* ---- secret box ---------------------------------------------------------------------------
BoxKs(key, nonce, n) == Ks(Keyed("salsa20", key, nonce, L0), 0, 32 + n)
Seal(key, nonce, m) == LET k == BoxKs(key, nonce, Len(m))
                           ct == BXor(m, Drop(k, 32))
                       IN Poly1305(Take(k, 32), ct) \o ct
\* <<opened, message>>
Open(key, nonce, box) ==
  IF Len(box) < 16 THEN <<FALSE, <<>>>>
  ELSE LET ct == Drop(box, 16)
           k == BoxKs(key, nonce, Len(ct))
       IN IF Poly1305(Take(k, 32), ct) = Take(box, 16) THEN <<TRUE, BXor(ct, Drop(k, 32))>> ELSE <<FALSE, <<>>>>
=============================================================================
