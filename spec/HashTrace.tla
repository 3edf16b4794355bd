----------------------------- MODULE HashTrace -----------------------------
(***************************************************************************)
(* Hash and HMAC contexts.  Abstract state: each slot holds the algorithm, *)
(* key and the concatenation of everything absorbed so far.  The digest is *)
(* a function of that concatenation only.                                  *)
(***************************************************************************)
EXTENDS Hash, TraceKit

Empty == [k |-> "none", a |-> "", key |-> <<>>, n |-> 0, msg |-> <<>>]
InitSt == [i \in 0..7 |-> Empty]

\* digest of a finished slot; n is the requested length, p an extra argument
Digest(c, n, p) ==
  CASE c.k = "hash"  -> HashFX(c.a, IF n = 0 THEN HashSize(c.a) ELSE n, c.msg)
    [] c.k = "named" -> IF Len(c.key) = 0 THEN HashFX(c.a, IF n = 0 THEN HashSize(c.a) ELSE n, c.msg)
                        ELSE IF HashBlock(c.a) = 128 THEN Blake2bDef(c.key, HashSize(c.a), c.msg)
                        ELSE Blake2sDef(c.key, HashSize(c.a), c.msg)
    [] c.k = "hmac"  -> Hmac(c.a, c.key, c.msg)
    [] c.k = "keccak" -> KeccakDef((1600 - 2 * c.n) \div 8, IF p = 0 THEN 1 ELSE p, IF n = 0 THEN c.n \div 8 ELSE n, c.msg)
    [] c.k = "blake2b" -> Blake2bDef(c.key, c.n, c.msg)
    [] c.k = "blake2s" -> Blake2sDef(c.key, c.n, c.msg)

\* digests of very long messages, computed once with independent implementations
LongDigests == JsonDeserialize("data/long_digests.json")

Exp(s, e) ==
  CASE e.op \in {"hash_init", "named_init", "hmac_init", "keccak_init", "blake2b_init", "blake2s_init", "hash_update", "hash_copy"} -> OK
    [] e.op = "hash_final" -> <<ToHex(Digest(s[e.a[1]], e.a[2], IF Len(e.a) > 2 THEN e.a[3] ELSE 0))>>
    [] e.op = "hash_sizes" -> <<IF HashSize(e.a[1]) > 0 THEN "1" ELSE "0", N(HashSize(e.a[1])), N(HashBlock(e.a[1]))>>
    \* all cuttings of one message: a single digest
    [] e.op = "hash_cuts" -> <<ToHex(Digest([k |-> <<"hash", "named", "hmac">>[e.a[1]], a |-> e.a[2], key |-> Hex(e.a[3]), n |-> 0,
                                             msg |-> Hex(e.a[4])], 0, 0))>>
    [] e.op = "hash_repeat" -> <<LongDigests[e.a[1] \o "/" \o N(e.a[2]) \o "/" \o N(e.a[3]) \o "/" \o e.a[4]]>>

Nxt(s, e) ==
  CASE e.op = "hash_init"  -> [s EXCEPT ![e.a[1]] = [Empty EXCEPT !.k = "hash", !.a = e.a[2]]]
    [] e.op = "named_init" -> [s EXCEPT ![e.a[1]] = [Empty EXCEPT !.k = "named", !.a = e.a[2], !.key = Hex(e.a[3])]]
    [] e.op = "hmac_init"  -> [s EXCEPT ![e.a[1]] = [Empty EXCEPT !.k = "hmac", !.a = e.a[2], !.key = Hex(e.a[3])]]
    [] e.op = "keccak_init"  -> [s EXCEPT ![e.a[1]] = [Empty EXCEPT !.k = "keccak", !.n = e.a[2]]]
    [] e.op \in {"blake2b_init", "blake2s_init"} ->
         [s EXCEPT ![e.a[1]] = [Empty EXCEPT !.k = IF e.op = "blake2b_init" THEN "blake2b" ELSE "blake2s", !.n = e.a[2], !.key = Hex(e.a[3])]]
    [] e.op = "hash_update" -> [s EXCEPT ![e.a[1]].msg = @ \o Hex(e.a[2])]
    [] e.op = "hash_copy" -> [s EXCEPT ![e.a[1]] = s[e.a[2]]]
    [] e.op = "hash_final" -> [s EXCEPT ![e.a[1]] = Empty]
    [] OTHER -> s

Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
