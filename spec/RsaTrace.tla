------------------------------ MODULE RsaTrace -----------------------------
(***************************************************************************)
(* RSA calls.  A refusal gives "-"; a refused decryption also reports      *)
(* whether its output buffer was left without data.                        *)
(* The state remembers what key generation returned for which seed.        *)
(***************************************************************************)
EXTENDS Rsa, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
Opened(x) == IF x = None THEN <<"-", "clean">> ELSE <<Txt(x)>>
KeyTxt(k, enc(_)) == IF k = <<>> THEN "-" ELSE ToHex(enc(k)) \o "."
Bits(k) == IF k = <<>> THEN "0" ELSE N(ZBitLen(k[1]))
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Import(s, hint) ==                                            \* <<decided, key>>
  LET x == ReadPlain(s, 8)
      v == x.v
  IN IF ~x.ok THEN <<TRUE, <<>>>>
     ELSE IF PrivOk(v) THEN <<TRUE, v>>
     ELSE IF v[4] # Z0 /\ v[5] # Z0
          THEN <<TRUE, IF v[2] # Z0 THEN FromPqe(v[4], v[5], v[2]) ELSE FromPqd(v[4], v[5], v[3])>>
     ELSE IF ~NedOk(v[1], v[2], v[3]) THEN <<TRUE, <<>>>>
     ELSE LET h == ReadPlain(hint, 2)                        \* the factors, known to whoever made the request
              p == h.v[1]
              q == h.v[2]
          IN IF ~h.ok THEN <<FALSE, <<v[1], v[2]>>>>
             ELSE IF p ** q = v[1] /\ (v[2] ** v[3]) %% Lcm(p -- Z1, q -- Z1) = Z1
                  THEN <<TRUE, FromPqe(p, q, v[2])>> ELSE <<FALSE, <<v[1], v[2]>>>>
Exp(s, e) ==
  LET a == e.a IN
  CASE e.op = "rs_sign" -> <<Txt(Sign(a[1], Hex(a[2]), Hex(a[3])))>>
    [] e.op = "rs_verify" -> <<B01(Verify(a[1], Hex(a[2]), Hex(a[3]), Hex(a[4])))>>
    [] e.op = "rs_signpss" -> <<Txt(SignPss(a[1], Hex(a[2]), Hex(a[3]), a[4], Hex(a[5])))>>
    [] e.op = "rs_verifypss" -> <<B01(VerifyPss(a[1], Hex(a[2]), Hex(a[3]), Hex(a[4]), a[5]))>>
    [] e.op = "rs_enc" -> <<Txt(Encrypt(Hex(a[1]), Hex(a[2]), Hex(a[3])))>>
    [] e.op = "rs_dec" -> Opened(Decrypt(Hex(a[1]), Hex(a[2])))
    [] e.op = "rs_deckey" -> Opened(DecryptKey(Hex(a[1]), a[2], Hex(a[3]), Hex(a[4])))
    [] e.op = "rs_encoaep" -> <<Txt(EncryptOaep(a[1], Hex(a[2]), Hex(a[3]), Hex(a[4]), Hex(a[5])))>>
    [] e.op = "rs_decoaep" -> Opened(DecryptOaep(a[1], Hex(a[2]), Hex(a[3]), Hex(a[4])))
    [] e.op = "rs_veil" -> IF VeilOk(Hex(a[1]), a[2], Hex(a[3])) THEN <<"congruent value of that size">> ELSE <<"-">>
    [] e.op = "rs_unveil" -> <<Txt(Unveil(Hex(a[1]), a[2], Hex(a[3])))>>
    [] e.op = "rs_privbits" -> <<Bits(PrivKey(Hex(a[1]))), B01(PrivKey(Hex(a[1])) # <<>>)>>
    [] e.op = "rs_pubbits" -> <<Bits(PubKey(Hex(a[1]))), B01(PubKey(Hex(a[1])) # <<>>)>>
    [] e.op = "rs_privexp" -> <<KeyTxt(PrivKey(Hex(a[1])), EncPlain)>>
    [] e.op = "rs_pubexp" -> <<KeyTxt(PubKey(Hex(a[1])), EncPlain)>>
    [] e.op = "rs_pubcreate" -> LET k == PrivKey(Hex(a[1])) IN <<KeyTxt(IF k = <<>> THEN k ELSE <<k[1], k[2]>>, EncPub)>>
    [] e.op = "rs_pubimp" -> LET x == ReadPlain(Hex(a[1]), 2) IN
                             <<IF ~x.ok THEN "-" ELSE IF ~PubOk(x.v) THEN "-" ELSE KeyTxt(x.v, EncPub)>>
    [] e.op = "rs_privimp" -> LET x == Import(Hex(a[1]), Hex(a[3])) IN
                             IF x[1] THEN <<KeyTxt(x[2], EncPriv)>> ELSE <<"refusal or a valid key">>
    [] e.op = "rs_gen" -> IF GenArgsOk(a[1], ZHex(a[2])) THEN <<"key">> ELSE <<"-">>
Ok(s, e) ==
  LET a == e.a
      r == e.r
  IN CASE e.op = "rs_veil" ->
            IF VeilOk(Hex(a[1]), a[2], Hex(a[3]))
            THEN Len(r) = 1 /\ r[1] # "-" /\ Veiled(UnTxt(r[1]), Hex(a[1]), a[2], Hex(a[3]))
            ELSE r = <<"-">>
       [] e.op = "rs_gen" ->
            IF ~GenArgsOk(a[1], ZHex(a[2])) THEN r = <<"-">>
            ELSE /\ Len(r) = 1 /\ r[1] # "-"
                 /\ LET x == ReadVersioned(UnTxt(r[1]), 8) IN x.ok /\ Generated(x.v, a[1], ZHex(a[2]))
                 /\ \A i \in 1..Len(s) : (s[i][1] = a) <=> (s[i][2] = r)
       [] e.op = "rs_privimp" ->
            (LET x == Import(Hex(a[1]), Hex(a[3])) IN
             IF x[1] THEN r = Exp(s, e)
             ELSE r = <<"-">> \/ LET y == ReadVersioned(UnTxt(r[1]), 8) IN y.ok /\ PrivOk(y.v) /\ <<y.v[1], y.v[2]>> = x[2])
       [] OTHER -> r = Exp(s, e)
Nxt(s, e) == IF e.op = "rs_gen" THEN Append(s, <<e.a, e.r>>) ELSE s
TraceInit == TInit(<<>>)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
