-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Modes of operation used directly: no buffer and no padding.  A mode has *)
(* a chaining value and takes whole blocks (or, for a keystream, any       *)
(* bytes) at each call.  Ciphertext stealing works on the last block that  *)
(* was put out, so the state remembers that block's input (pb) and the     *)
(* chaining value it met (pc).                                             *)
(***************************************************************************)
EXTENDS Modes

PrimIvOk(mode, bs, iv) == CASE mode = "gcm" -> bs = 16 [] mode = "ccm" -> bs = 16 /\ Len(iv) >= 7 [] mode = "eax" -> Len(iv) > 0 [] OTHER -> TRUE
Prim(mode, enc, id, key, iv, key2) ==
  LET s == Sched(id, key)
      bs == BlockSize(id)
  IN IF ~PrimIvOk(mode, bs, iv) \/ (mode = "xts" /\ ~KeyOk(id, Len(key2))) THEN NoStream
     ELSE [ok |-> TRUE, mode |-> mode, enc |-> enc, bs |-> bs, s |-> s, iv |-> iv, aad |-> <<>>, text |-> <<>>, ccm |-> 0, mlen |-> 0,
           pb |-> <<>>, pc |-> <<>>,
           c |-> CASE mode = "ecb" -> <<>>
                   [] mode = "cbc" -> iv
                   [] mode = "xts" -> Enc(Sched(id, key2), iv)
                   [] mode \in {"ctr", "cfb", "ofb"} -> KsInit(iv)
                   [] mode = "gcm" -> KsInit(IncBE(GcmJ0(s, iv), 4))
                   [] mode = "ccm" -> KsInit(<<>>)
                   [] mode = "eax" -> KsInit(Omac(s, bs, 0, iv))]
PrimCcmOk(p, taglen) == p.mode = "ccm" /\ taglen \in {4, 6, 8, 10, 12, 14, 16}
PrimCcm(p, mlen, taglen, aad) ==
  [p EXCEPT !.aad = aad, !.ccm = taglen, !.mlen = mlen, !.c = KsInit(IncBE(CcmCtr0(p.iv, CcmL(Len(p.iv), mlen)), 2))]
\* <<next, output>>
PrimCrypt(p, data) ==
  IF p.mode \in BlockModes
  THEN IF Len(data) = 0 THEN <<p, <<>>>>
       ELSE LET n == Len(data) - p.bs
                a == BlkRun(p.mode, p.enc, p.s, p.c, Take(data, n), p.bs)
                b == BlkStep(p.mode, p.enc, p.s, a[1], Drop(data, n))
            IN <<[p EXCEPT !.c = b[1], !.pc = a[1], !.pb = Drop(data, n)], a[2] \o b[2]>>
  ELSE LET r == KsRun(p.mode, p.enc, p.s, p.c, data)
           cov == IF p.mode = "ccm" THEN (IF p.enc THEN data ELSE r[2]) ELSE (IF p.enc THEN r[2] ELSE data)
       IN <<[p EXCEPT !.c = r[1], !.text = IF p.mode \in AeadModes THEN @ \o cov ELSE @], r[2]>>
\* stealing without a chain: the partial block takes the place of what it pushes out
EcbCts(enc, s, p, part) ==
  LET c == IF enc THEN Enc(s, p) ELSE Dec(s, p)
      x == part \o Drop(c, Len(part))
  IN (IF enc THEN Enc(s, x) ELSE Dec(s, x)) \o Take(c, Len(part))
\* the last block again, and the partial one
PrimSteal(p, part) ==
  LET o == CASE p.mode = "ecb" -> EcbCts(p.enc, p.s, p.pb, part)
             [] p.mode = "cbc" -> (IF p.enc THEN CtsEnc(p.s, p.pc, p.pb, part) ELSE CtsDec(p.s, p.pc, p.pb, part))
             [] p.mode = "xts" -> (IF p.enc THEN XtsEnc(p.s, p.pc, p.pb, part) ELSE XtsDec(p.s, p.pc, p.pb, part))
  IN <<Take(o, p.bs), Drop(o, p.bs)>>
PrimTag(p) == CASE p.mode = "gcm" -> GcmTag(p.s, p.iv, p.aad, p.text)
                [] p.mode = "ccm" -> CcmTag(p.s, p.iv, p.ccm, p.aad, p.text, p.mlen)
                [] p.mode = "eax" -> EaxTag(p.s, p.bs, p.iv, p.aad, p.text)
=============================================================================
