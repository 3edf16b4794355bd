----------------------------- MODULE Generator -----------------------------
(***************************************************************************)
(* The global generator: ChaCha20 under a key that changes after every     *)
(* request for bytes and every time the pool of words is refilled.         *)
(* A state is [key, nonce, pool, pos]: 8 words, a 64-bit number, 128 words *)
(* and the number of words of the pool not given out yet.                  *)
(***************************************************************************)
EXTENDS Stream, Hash

PoolWords == 128
Usable == 120                       \* the remaining eight words become part of the next key
\* sys: bytes of the system; hw: bytes of the hardware source, or none
SeedOf(sys, hw) == [key |-> Tup(Words32LE(HashF("sha256", sys \o hw))), nonce |-> L0, pool |-> Rep(0, PoolWords), pos |-> 0]
Out(g, n) == Ks(Keyed("chacha20", Cat32LE(g.key), LE64(g.nonce), L0), 0, n)
\* x: a word of the hardware source, 0 without one
Generate(g, n, x) ==
  LET k1 == [g.key EXCEPT ![1] = WXor(@, n), ![8] = WXor(@, x)]
      g1 == [g EXCEPT !.key = k1, !.nonce = LAdd(@, <<0, 1>>)]
  IN [out |-> Out(g, n), old |-> {g.key[i] : i \in 1..8} \cup {Words32LE(Out(g1, 32))[i] : i \in 1..8}, g |-> [g1 EXCEPT !.key = Tup(BXor(k1, Words32LE(Out(g1, 32))))]]
Refill(g, x) ==
  LET p == Tup(Words32LE(Out(g, 4 * PoolWords)))
      k1 == [g.key EXCEPT ![8] = WXor(@, x)]
  IN [key |-> Tup(BXor(k1, Drop(p, Usable))), nonce |-> LAdd(g.nonce, <<0, 1>>),
      pool |-> Tup([i \in 1..PoolWords |-> IF i <= Usable THEN p[i] ELSE 0]), pos |-> Usable]
\* c: [g, xs (hardware words left), used (number of them taken), w (word), old (words to be forgotten)];
\* the pool is emptied from its end and words given out are erased
\* the key before a refill, and the words it was changed by
Past(g) == {g.key[i] : i \in 1..8} \cup {W32LE(Out(g, 4 * PoolWords), 4 * i) : i \in Usable..PoolWords-1}
Hd(s) == IF s = <<>> THEN 0 ELSE s[1]
Tl(s) == IF s = <<>> THEN s ELSE Tail(s)
Word(c, hw) ==
  LET g == IF c.g.pos = 0 THEN Refill(c.g, IF hw THEN Hd(c.xs) ELSE 0) ELSE c.g
  IN [g |-> [g EXCEPT !.pos = @ - 1, !.pool[g.pos] = 0], xs |-> IF c.g.pos = 0 /\ hw THEN Tl(c.xs) ELSE c.xs,
      used |-> IF c.g.pos = 0 /\ hw THEN c.used + 1 ELSE c.used, w |-> g.pool[g.pos],
      old |-> c.old \cup {g.pool[g.pos]} \cup (IF c.g.pos = 0 THEN Past(c.g) ELSE {})]
\* bounded integers: words of an incomplete last class of residues are passed over
Fits(w, max) == LET x == ZBE(BE32(w)) IN ZLe(x -- (x %% max), Z2(32) -- max)
RECURSIVE Bounded(_, _, _)
Bounded(c, hw, max) ==
  IF ZLe(max, Z(1)) THEN [c EXCEPT !.w = 0]
  ELSE LET d == Word(c, hw) IN
       IF Fits(d.w, max) THEN [d EXCEPT !.w = W32BE(BEZ(ZBE(BE32(d.w)) %% max, 4), 0)] ELSE Bounded(d, hw, max)
=============================================================================
