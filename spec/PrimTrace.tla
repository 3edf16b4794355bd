------------------------------ MODULE PrimTrace -----------------------------
(* Recorded executions of modes of operation called directly (C31). *)
EXTENDS Prim, TraceKit

Of(a) == Prim(a[2], a[3] = 1, a[4], Hex(a[5]), Hex(a[6]), Hex(a[7]))
Exp(s, e) ==
  LET a == e.a
      p == s[a[1]]
  IN CASE e.op = "md_init" -> <<B01(Of(a).ok)>>
       [] e.op = "md_aad" -> OK
       [] e.op = "md_ccm" -> <<B01(PrimCcmOk(p, a[3]))>>
       [] e.op = "md_crypt" -> <<ToHex(PrimCrypt(p, Hex(a[2]))[2])>>
       [] e.op = "md_steal" -> LET o == PrimSteal(p, Hex(a[2])) IN <<ToHex(o[1]), ToHex(o[2])>>
       [] e.op = "md_digest" -> <<ToHex(PrimTag(p))>>
       [] e.op = "md_copy" -> OK
Ok(s, e) == IF e.op = "md_digest" /\ s[e.a[1]].mode = "ccm"
            THEN Len(e.r) = 1 /\ Take(Hex(e.r[1]), s[e.a[1]].ccm) = PrimTag(s[e.a[1]])    \* the rest is cut off by the caller
            ELSE e.r = Exp(s, e)
Nxt(s, e) ==
  LET a == e.a
      p == s[a[1]]
  IN CASE e.op = "md_init" -> [s EXCEPT ![a[1]] = Of(a)]
       [] e.op = "md_aad" -> [s EXCEPT ![a[1]].aad = @ \o Hex(a[2])]
       [] e.op = "md_ccm" -> IF PrimCcmOk(p, a[3]) THEN [s EXCEPT ![a[1]] = PrimCcm(p, a[2], a[3], Hex(a[4]))] ELSE s
       [] e.op = "md_crypt" -> [s EXCEPT ![a[1]] = PrimCrypt(p, Hex(a[2]))[1]]
       [] e.op = "md_copy" -> [s EXCEPT ![a[1]] = s[a[2]]]
       [] OTHER -> s
TraceInit == TInit([i \in 0..3 |-> NoStream])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
