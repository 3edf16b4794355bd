-------------------------------- MODULE Drbg -------------------------------
(***************************************************************************)
(* The three generators of SP 800-90A as state machines:                   *)
(*   Init(...) -> state;  Reseed(state, ...) -> state;                     *)
(*   Gen(state, n, add) -> <<state, n bytes>>                              *)
(***************************************************************************)
EXTENDS Hash, Cipher, BigInt

\* ---- HMAC_DRBG (10.1.2) -------------------------------------------------------------------
HmUpdate(s, data) ==
  LET k1 == Hmac(s.a, s.K, s.V \o <<0>> \o data)
      v1 == Hmac(s.a, k1, s.V)
  IN IF Len(data) = 0 THEN [s EXCEPT !.K = k1, !.V = v1]
     ELSE LET k2 == Hmac(s.a, k1, v1 \o <<1>> \o data)
          IN [s EXCEPT !.K = k2, !.V = Hmac(s.a, k2, v1)]
HmInit(a, seed) == HmUpdate([f |-> "hmac", a |-> a, K |-> Zeros(HashSize(a)), V |-> Rep(1, HashSize(a))], seed)
HmReseed(s, seed) == HmUpdate(s, seed)
HmGen(s0, n, add) ==
  LET s == IF Len(add) > 0 THEN HmUpdate(s0, add) ELSE s0
      g == Iter(LAMBDA x, i : LET v == Hmac(s.a, s.K, x[1]) IN <<v, x[2] \o v>>, <<s.V, <<>>>>, CeilDiv(n, HashSize(s.a)))
  IN <<HmUpdate([s EXCEPT !.V = g[1]], add), Take(g[2], n)>>

\* ---- Hash_DRBG (10.1.1) -------------------------------------------------------------------
SeedLen(a) == IF HashSize(a) <= 32 THEN 55 ELSE 111
\* derivation function 10.3.1
HashDf(a, input, n) ==
  Take(Iter(LAMBDA x, i : x \o HashF(a, <<i + 1>> \o IntBE(8 * n, 4) \o input), <<>>, CeilDiv(n, HashSize(a))), n)
HsFrom(a, v) == [f |-> "hash", a |-> a, V |-> v, C |-> HashDf(a, <<0>> \o v, SeedLen(a)), ctr |-> 1]
HsInit(a, seed) == HsFrom(a, HashDf(a, seed, SeedLen(a)))
HsReseed(s, seed) == HsFrom(s.a, HashDf(s.a, <<1>> \o s.V \o seed, SeedLen(s.a)))
LOCAL AddBE(v, w) == BEZ(ZBE(v) ++ ZBE(w), Len(v))
HsGen(s, n, add) ==
  LET v0 == IF Len(add) > 0 THEN AddBE(s.V, HashF(s.a, <<2>> \o s.V \o add)) ELSE s.V
      g == Iter(LAMBDA x, i : <<AddBE(x[1], <<1>>), x[2] \o HashF(s.a, x[1])>>, <<v0, <<>>>>, CeilDiv(n, HashSize(s.a)))
      h == HashF(s.a, <<3>> \o v0)
  IN <<[s EXCEPT !.V = AddBE(AddBE(AddBE(v0, h), s.C), IntBE(s.ctr, 8)), !.ctr = @ + 1], Take(g[2], n)>>

\* ---- CTR_DRBG with AES (10.2.1) -----------------------------------------------------------
AesF(key, b) == JdkEnc("AES", key, b)
Min(a, b) == IF a < b THEN a ELSE b
CtSeed(s) == s.kl + 16
LOCAL IncV(v) == BEZ(ZBE(v) ++ Z(1), 16)
CtUpdate(s, data) ==
  LET n == CtSeed(s)
      g == Iter(LAMBDA x, i : LET v == IncV(x[1]) IN <<v, x[2] \o AesF(s.K, v)>>, <<s.V, <<>>>>, CeilDiv(n, 16))
      d == Take(data, Min(Len(data), n))
      t == BXor(d \o Zeros(n - Len(d)), Take(g[2], n))
  IN [s EXCEPT !.K = Take(t, s.kl), !.V = Drop(t, s.kl)]
\* Block_Cipher_df (10.3.2)
LOCAL Bcc(key, m) == Fold(LAMBDA z, b : AesF(key, BXor(z, b)), Zeros(16), Blocks(m, 16))
CtDf(s, input) ==
  LET n == CtSeed(s)
      s0 == IntBE(Len(input), 4) \o IntBE(n, 4) \o input \o <<128>>
      s1 == s0 \o Zeros((16 - (Len(s0) % 16)) % 16)
      key == Tup([i \in 1..s.kl |-> i - 1])
      t == Iter(LAMBDA x, i : x \o Bcc(key, IntBE(i, 4) \o Zeros(12) \o s1), <<>>, CeilDiv(n, 16))
      k2 == Take(t, s.kl)
  IN Take(Iter(LAMBDA x, i : LET y == AesF(k2, x[1]) IN <<y, x[2] \o y>>, <<SubSeq(t, s.kl + 1, s.kl + 16), <<>>>>, CeilDiv(n, 16))[2], n)
\* the library takes at most 512 bytes of each input with derivation and a seed length without
LOCAL Cap(s, x) == Take(x, Min(Len(x), IF s.df THEN 512 ELSE CtSeed(s)))
LOCAL Pad(s, x) == x \o Zeros(CtSeed(s) - Len(x))
CtEntropy(s, a, b) == IF s.df THEN CtDf(s, Cap(s, a) \o Cap(s, b)) ELSE BXor(Pad(s, Cap(s, a)), Pad(s, Cap(s, b)))
CtInit(bits, df, a, b) ==
  LET s == [f |-> "ctr", kl |-> bits \div 8, df |-> df, K |-> Zeros(bits \div 8), V |-> Zeros(16)]
  IN CtUpdate(s, CtEntropy(s, a, b))
CtReseed(s, a, b) == CtUpdate(s, CtEntropy(s, a, b))
CtGen(s0, n, add0) ==
  LET add == IF Len(add0) = 0 THEN <<>> ELSE IF s0.df THEN CtDf(s0, Cap(s0, add0)) ELSE add0
      s == IF Len(add0) > 0 THEN CtUpdate(s0, add) ELSE s0
      g == Iter(LAMBDA x, i : LET v == IncV(x[1]) IN <<v, x[2] \o AesF(s.K, v)>>, <<s.V, <<>>>>, CeilDiv(n, 16))
  IN <<CtUpdate([s EXCEPT !.V = g[1]], add), Take(g[2], n)>>

Reseed(s, a, b) == CASE s.f = "hmac" -> HmReseed(s, a) [] s.f = "hash" -> HsReseed(s, a) [] s.f = "ctr" -> CtReseed(s, a, b)
Gen(s, n, add) == CASE s.f = "hmac" -> HmGen(s, n, add) [] s.f = "hash" -> HsGen(s, n, add) [] s.f = "ctr" -> CtGen(s, n, add)
=============================================================================
