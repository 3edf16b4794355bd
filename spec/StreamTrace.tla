---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Stream cipher, one-time authenticator and box calls.  Abstract state:   *)
(* the key material of each slot and the number of bytes processed, or the *)
(* data absorbed so far.                                                   *)
(***************************************************************************)
EXTENDS Stream, TraceKit

Empty == [k |-> "none"]
InitSt == [i \in 0..7 |-> Empty]
KsOf(c, n) == IF c.k = "arc4" THEN SubSeq(Arc4Bytes(c.key, c.p + n), c.p + 1, c.p + n) ELSE Ks(c.ks, c.p, n)
Ctr(h) == LET b == Hex(h) IN <<W32BE(b, 0), W32BE(b, 4)>>
New(f, key, nonce, ctr) == IF f = "arc4" THEN [k |-> "arc4", key |-> Hex(key), p |-> 0]
                           ELSE [k |-> "st", ks |-> Keyed(f, Hex(key), Hex(nonce), Ctr(ctr)), p |-> 0]
NewCp(key, nonce) == [k |-> "cp", ks |-> Keyed("chacha20", Hex(key), Hex(nonce), L0), p |-> 64, aad |-> <<>>, ct |-> <<>>]

Exp(s, e) ==
  CASE e.op \in {"st_init", "po_init", "po_update", "po_pad", "cp_init", "cp_aad", "cp_auth", "sx_copy"} -> OK
    [] e.op = "st_crypt" -> LET d == Hex(e.a[2]) IN <<ToHex(BXor(d, KsOf(s[e.a[1]], Len(d))))>>
    [] e.op = "st_cuts" -> LET d == Hex(e.a[5]) IN <<ToHex(BXor(d, KsOf(New(e.a[1], e.a[2], e.a[3], e.a[4]), Len(d))))>>
    [] e.op = "st_derive" -> <<ToHex(Derive(e.a[1], Hex(e.a[2]), Hex(e.a[3])))>>
    [] e.op = "po_final" -> <<ToHex(Poly1305(s[e.a[1]].key, s[e.a[1]].msg))>>
    [] e.op = "po_cuts" -> <<ToHex(Poly1305(Hex(e.a[1]), Hex(e.a[2])))>>
    [] e.op \in {"cp_enc", "cp_dec"} -> LET d == Hex(e.a[2]) IN <<ToHex(BXor(d, KsOf(s[e.a[1]], Len(d))))>>
    [] e.op = "cp_final" -> <<ToHex(CpTag(s[e.a[1]].ks, s[e.a[1]].aad, s[e.a[1]].ct))>>
    [] e.op = "sb_seal" -> <<ToHex(Seal(Hex(e.a[2]), Hex(e.a[3]), Hex(e.a[1])))>>
    [] e.op = "sb_open" -> LET o == Open(Hex(e.a[2]), Hex(e.a[3]), Hex(e.a[1])) IN <<B01(o[1]), ToHex(o[2])>>
    [] e.op = "sb_derive" -> <<ToHex(SalDerive(Hex(e.a[1]), Zeros(16)))>>

Nxt(s, e) ==
  CASE e.op = "st_init" -> [s EXCEPT ![e.a[1]] = New(e.a[2], e.a[3], e.a[4], e.a[5])]
    [] e.op = "st_crypt" -> [s EXCEPT ![e.a[1]].p = @ + (Len(e.a[2]) \div 2)]
    [] e.op = "sx_copy" -> [s EXCEPT ![e.a[1]] = s[e.a[2]]]
    [] e.op = "po_init" -> [s EXCEPT ![e.a[1]] = [k |-> "po", key |-> Hex(e.a[2]), msg |-> <<>>]]
    [] e.op = "po_update" -> [s EXCEPT ![e.a[1]].msg = @ \o Hex(e.a[2])]
    [] e.op = "po_pad" -> [s EXCEPT ![e.a[1]].msg = PadTo16(@)]
    [] e.op \in {"po_final", "cp_final"} -> [s EXCEPT ![e.a[1]] = Empty]
    [] e.op = "cp_init" -> [s EXCEPT ![e.a[1]] = NewCp(e.a[2], e.a[3])]
    [] e.op = "cp_aad" -> [s EXCEPT ![e.a[1]].aad = @ \o Hex(e.a[2])]
    [] e.op = "cp_enc" -> [s EXCEPT ![e.a[1]].p = @ + (Len(e.a[2]) \div 2), ![e.a[1]].ct = @ \o BXor(Hex(e.a[2]), KsOf(s[e.a[1]], Len(e.a[2]) \div 2))]
    [] e.op = "cp_dec" -> [s EXCEPT ![e.a[1]].p = @ + (Len(e.a[2]) \div 2), ![e.a[1]].ct = @ \o Hex(e.a[2])]
    [] e.op = "cp_auth" -> [s EXCEPT ![e.a[1]].ct = @ \o Hex(e.a[2])]
    [] OTHER -> s

Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
