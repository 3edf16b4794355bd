----------------------------- MODULE DrbgTrace -----------------------------
\* Generator histories: instantiate, reseed, generate, copy, interleaved over several generators.
EXTENDS Drbg, TraceKit

InitSt == [i \in 0..7 |-> [f |-> "none"]]
Exp(s, e) ==
  CASE e.op \in {"hm_init", "hs_init", "ct_init", "dr_reseed", "dr_copy", "dr_move"} -> OK
    [] e.op = "dr_gen" -> <<ToHex(Gen(s[e.a[1]], e.a[2], Hex(e.a[3]))[2])>>
    [] e.op = "dr_rng" -> <<ToHex(Gen(s[e.a[1]], e.a[2], <<>>)[2])>>
Nxt(s, e) ==
  CASE e.op = "hm_init" -> [s EXCEPT ![e.a[1]] = HmInit(e.a[2], Hex(e.a[3]))]
    [] e.op = "hs_init" -> [s EXCEPT ![e.a[1]] = HsInit(e.a[2], Hex(e.a[3]))]
    [] e.op = "ct_init" -> [s EXCEPT ![e.a[1]] = CtInit(e.a[2], e.a[3] # 0, Hex(e.a[4]), Hex(e.a[5]))]
    [] e.op = "dr_reseed" -> [s EXCEPT ![e.a[1]] = Reseed(@, Hex(e.a[2]), Hex(e.a[3]))]
    [] e.op = "dr_copy" -> [s EXCEPT ![e.a[1]] = s[e.a[2]]]
    [] e.op = "dr_gen" -> [s EXCEPT ![e.a[1]] = Gen(@, e.a[2], Hex(e.a[3]))[1]]
    [] e.op = "dr_rng" -> [s EXCEPT ![e.a[1]] = Gen(@, e.a[2], <<>>)[1]]
    [] OTHER -> s
Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
