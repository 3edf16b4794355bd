-------------------------------- MODULE Util -------------------------------
(***************************************************************************)
(* Memory utilities and short keyed hashes: MurmurHash3 (x86, 32 bits),    *)
(* SipHash-2-4 with the final constant of Bitcoin's and Handshake's        *)
(* fixed-width forms, and reduction of a 64-bit value to a range.          *)
(***************************************************************************)
EXTENDS BigInt, Words

\* ranges of a buffer
Erase(b, o, n) == Tup([i \in 1..Len(b) |-> IF i > o /\ i <= o + n THEN 0 ELSE b[i]])
XorInto(z, o, x) == Tup([i \in 1..Len(z) |-> IF i > o /\ i <= o + Len(x) THEN WXor(z[i], x[i - o]) ELSE z[i]])
Put(z, o, x) == Tup([i \in 1..Len(z) |-> IF i > o /\ i <= o + Len(x) THEN x[i - o] ELSE z[i]])
\* sign of the first difference
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) == IF i > Len(x) THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE CmpFrom(x, y, i + 1)

W(s) == W32BE(Hex(s), 0)
L(s) == L64BE(Hex(s), 0)
MurK(k) == WMul(WRotl(WMul(k, W("cc9e2d51")), 15), W("1b873593"))
Murmur3(d, seed) ==
  LET n == Len(d) \div 4
      body(h, i) == WAdd(WMul(WRotl(WXor(h, MurK(W32LE(d, 4 * i))), 13), 5), W("e6546b64"))
      h1 == Iter(body, seed, n)
      t == Drop(d, 4 * n)
      h2 == IF Len(t) = 0 THEN h1 ELSE WXor(h1, MurK(W32LE(t \o Zeros(4 - Len(t)), 0)))
      a == WXor(h2, Len(d))
      b == WMul(WXor(a, WShr(a, 16)), W("85ebca6b"))
      c == WMul(WXor(b, WShr(b, 13)), W("c2b2ae35"))
  IN WXor(c, WShr(c, 16))
MurmurTweak(d, n, tweak) == Murmur3(d, WAdd(WMul(n, W("fba4c795")), tweak))

SipRound(v) ==
  LET a0 == LAdd(v[1], v[2])   a1 == LXor(LRotl(v[2], 13), a0)   b0 == LRotl(a0, 32)
      a2 == LAdd(v[3], v[4])   a3 == LXor(LRotl(v[4], 16), a2)
      c0 == LAdd(b0, a3)       c3 == LXor(LRotl(a3, 21), c0)
      c2 == LAdd(a2, a1)       c1 == LXor(LRotl(a1, 17), c2)     d2 == LRotl(c2, 32)
  IN <<c0, c1, d2, c3>>
SipRounds(v, n) == LET f(x, i) == SipRound(x) IN Iter(f, v, n)
SipAbsorb(v, w) == LET x == SipRounds([v EXCEPT ![4] = LXor(v[4], w)], 2) IN [x EXCEPT ![1] = LXor(x[1], w)]
SipFinish(v) == LET x == SipRounds([v EXCEPT ![3] = LXor(v[3], <<0, 255>>)], 4) IN LXor(LXor(x[1], x[2]), LXor(x[3], x[4]))
SipInit(key) == LET k0 == L64LE(key, 0) k1 == L64LE(key, 8) IN
  <<LXor(k0, L("736f6d6570736575")), LXor(k1, L("646f72616e646f6d")), LXor(k0, L("6c7967656e657261")), LXor(k1, L("7465646279746573"))>>
SipHash(d, key) ==
  LET n == Len(d) \div 8
      t == Drop(d, 8 * n)
      last == L64LE(t \o Zeros(7 - Len(t)) \o <<Len(d) % 256>>, 0)
      f(v, i) == SipAbsorb(v, L64LE(d, 8 * i))
  IN SipFinish(SipAbsorb(Iter(f, SipInit(key), n), last))
\* one 64-bit number under a 128-bit or a 256-bit key
Sip128(num, key) == SipFinish(SipAbsorb(SipInit(key), num))
Sip256(num, key) == SipFinish(SipAbsorb(<<L64LE(key, 0), L64LE(key, 8), L64LE(key, 16), L64LE(key, 24)>>, num))
\* high half of the 128-bit product: below m for every m > 0
SipMod(d, key, m) == ZShr(ZBE(BE64(SipHash(d, key))) ** m, 64)
=============================================================================
