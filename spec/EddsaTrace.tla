----------------------------- MODULE EddsaTrace ----------------------------
(***************************************************************************)
(* Operations on EdDSA keys and signatures; "." refers to the last scalar  *)
(* or public key.                                                          *)
(***************************************************************************)
EXTENDS Eddsa, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Arg(x, last) == IF x = "." THEN last ELSE Hex(x)
Exp(s, e) ==
  LET a == e.a
      C == EdCurves[a[1]]
      B(i) == Hex(a[i])
      K(i) == Arg(a[i], s.priv)
      P(i) == TeDecode(C, Arg(a[i], s.pub))
      on(Q, f(_)) == IF Q = None THEN None ELSE f(Q)
      pub(Q) == <<Txt(TePub(C, Q))>>
  IN
  CASE e.op = "ed_rand" -> OK
    [] e.op = "ed_size" -> <<N(C.ss), N(ZBitLen(C.n)), N(C.bits), N(C.fs), N(C.es), N(C.es), N(2 * C.es)>>
    \* keys and scalars
    [] e.op \in {"ed_gen", "ed_sgen", "ed_grind", "ed_sgrind"} -> <<"key">>
    [] e.op = "ed_expand" -> <<Txt(ExpandScalar(C, B(2))), Txt(ExpandPrefix(C, B(2)))>>
    [] e.op = "ed_convert" -> <<Txt(ExpandScalar(C, B(2)))>>
    [] e.op = "ed_pimport" -> IF Len(B(2)) = C.es THEN <<Txt(B(2)), Txt(B(2)), "1">> ELSE <<"-">>
    [] e.op = "ed_szero" -> <<B01(ScZ(C, K(2)) = Z0)>>
    [] e.op = "ed_sclamp" -> <<Txt(Clamp(C, K(2)))>>
    [] e.op = "ed_sadd" -> <<Txt(ScB(C, ZLE(K(2)) ++ ZLE(B(3))))>>
    [] e.op = "ed_smul" -> <<Txt(ScB(C, ZLE(K(2)) ** ZLE(B(3))))>>
    [] e.op = "ed_sred" -> <<Txt(ScB(C, ZLE(K(2))))>>
    [] e.op = "ed_sneg" -> <<Txt(ScB(C, ZNeg(ZLE(K(2)))))>>
    [] e.op = "ed_sinv" -> <<Txt(ScB(C, ZInv(ScZ(C, K(2)), C.n)))>>
    [] e.op = "ed_create" -> pub(TePubOf(C, ExpandScalar(C, B(2))))
    [] e.op = "ed_from" -> pub(TePubOf(C, K(2)))
    \* public keys
    [] e.op = "ed_check" -> <<B01(P(2) # None)>>
    [] e.op = "ed_export" -> IF P(2) = None THEN <<"-">> ELSE <<Txt(LEZ(P(2)[1], C.fs)), Txt(LEZ(P(2)[2], C.fs))>>
    [] e.op = "ed_import" -> pub(TeImport(C, B(2), B(3), a[4] = 1))
    [] e.op = "ed_inf" -> <<B01(P(2) = TeId)>>
    [] e.op = "ed_small" -> <<B01(IF P(2) = None THEN FALSE ELSE IsSmall(C, P(2)))>>
    [] e.op = "ed_tors" -> <<B01(IF P(2) = None THEN FALSE ELSE HasTorsion(C, P(2)))>>
    [] e.op = "ed_tadd" -> pub(on(P(2), LAMBDA Q : TeAdd(C, Q, TeMul(C, ScZ(C, B(3)), C.g))))
    [] e.op = "ed_tmul" -> pub(on(P(2), LAMBDA Q : TeMul(C, ZLE(B(3)), Q)))
    [] e.op = "ed_add2" -> pub(TeSum(C, <<P(2), P(3)>>))
    [] e.op = "ed_neg" -> pub(on(P(2), LAMBDA Q : TeNeg(C, Q)))
    [] e.op = "ed_combine" -> pub(TeSum(C, Tup([i \in 1..(Len(a) - 1) |-> P(i + 1)])))
    [] e.op \in {"ed_derive", "ed_derives"} ->
         LET k == IF e.op = "ed_derive" THEN ExpandScalar(C, B(3)) ELSE Clamp(C, K(3))
             S == on(P(2), LAMBDA Q : TeMul(C, ZLE(k), Q))
         IN IF S = TeId THEN <<"-">> ELSE pub(S)
    \* signatures
    [] e.op = "ed_sign" -> <<Txt(EdSign(C, B(2), ExpandScalar(C, B(3)), ExpandPrefix(C, B(3)), a[4], B(5)))>>
    [] e.op = "ed_signs" -> <<Txt(EdSign(C, B(2), B(3), B(6), a[4], B(5)))>>
    [] e.op \in {"ed_signa", "ed_signm"} ->
         LET k == ZLE(ExpandScalar(C, B(3)))
             t == ZLE(B(6))
             f == TweakPrefix(C, ExpandPrefix(C, B(3)), B(6))
         IN <<Txt(EdSign(C, B(2), ScB(C, IF e.op = "ed_signa" THEN k ++ t ELSE k ** t), f, a[4], B(5)))>>
    [] e.op = "ed_verify" -> <<B01(EdVerify(C, B(2), B(3), B(4), a[5], B(6), FALSE))>>
    [] e.op = "ed_single" -> <<B01(EdVerify(C, B(2), B(3), B(4), a[5], B(6), TRUE))>>
    [] e.op = "ed_batch" -> <<B01(\A i \in 1..((Len(a) - 4) \div 3) :
                                    EdVerify(C, B(3 * i + 2), B(3 * i + 3), B(3 * i + 4), a[3], B(4), TRUE))>>
Ok(s, e) ==
  LET a == e.a
      r == e.r
      C == EdCurves[a[1]]
      odd(P) == ZOdd(P[2])
      b == UnTxt(r[1])
  IN CASE e.op = "ed_gen" -> Len(b) = C.es
       [] e.op = "ed_sgen" -> b = Clamp(C, b)
       [] e.op = "ed_grind" -> Len(b) = C.es /\ odd(TePubOf(C, ExpandScalar(C, b))) = (a[3] = 1)
       [] e.op = "ed_sgrind" -> b = Clamp(C, b) /\ odd(TePubOf(C, b)) = (a[3] = 1)
       \* without a parity either root will do
       [] e.op = "ed_import" /\ a[4] = -1 -> r = Exp(s, e) \/ (Exp(s, e) # <<"-">> /\ r = Exp(s, [e EXCEPT !.a[4] = 1]))
       [] OTHER -> r = Exp(s, e)
PrivOps == {"ed_sgen", "ed_sgrind", "ed_expand", "ed_convert", "ed_sclamp", "ed_sadd", "ed_smul", "ed_sred", "ed_sneg", "ed_sinv"}
PubOps == {"ed_create", "ed_from", "ed_import", "ed_tadd", "ed_tmul", "ed_add2", "ed_neg", "ed_combine", "ed_derive", "ed_derives"}
Nxt(s, e) == IF e.r[1] = "-" THEN s
             ELSE IF e.op \in PrivOps THEN [s EXCEPT !.priv = UnTxt(e.r[1])]
             ELSE IF e.op \in PubOps THEN [s EXCEPT !.pub = UnTxt(e.r[1])]
             ELSE s
TraceInit == TInit([priv |-> <<>>, pub |-> <<>>])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
