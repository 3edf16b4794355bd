---------------------------- MODULE SchnorrTrace ---------------------------
(***************************************************************************)
(* Schnorr signatures, batches and x-only keys on a curve object.  The     *)
(* state holds the keys that "." refers to.                                *)
(***************************************************************************)
EXTENDS Schnorr, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Arg(x, last) == IF x = "." THEN last ELSE Hex(x)
\* entries of a batch: message, signature, key from the fourth argument on
AllOf(a, ok(_, _, _)) ==
  \A i \in 1..((Len(a) - 2) \div 3) : ok(Hex(a[3 * i]), Hex(a[3 * i + 1]), Hex(a[3 * i + 2]))
Exp(s, e) ==
  LET a == e.a
      C == WeiCurves[a[1]]
      B(i) == Hex(a[i])
      K(i) == Arg(a[i], s.priv)
      P(i) == XPoint(C, Arg(a[i], s.pub))
      sc(t, f(_)) == IF t = NoZ THEN Inf ELSE f(t)
      on(Q, f(_)) == IF Q = Inf THEN Inf ELSE f(Q)
      tw(Q) == LET z == XTweak(C, Q) IN IF Q = Inf THEN <<"-">> ELSE <<Txt(z[1]), N(z[2])>>
      chk(Q, x, neg) == <<B01(Q # Inf /\ XTweak(C, Q) = <<x, IF neg = 0 THEN 0 ELSE 1>>)>>
      tadd == on(P(2), LAMBDA Q : sc(Scalar(C, B(3)), LAMBDA t : EcAdd(C, Q, EcMul(C, t, C.g))))
      tmul == on(P(2), LAMBDA Q : sc(Scalar(C, B(3)), LAMBDA t : EcMul(C, t, Q)))
  IN
  CASE e.op = "ec_rand" -> OK
    [] e.op = "bs_support" -> <<B01(Supported(C))>>
    [] e.op = "bs_sign" -> LET k == Key(C, B(3)) IN <<IF k = NoZ THEN "-" ELSE Txt(LegacySign(C, k, B(2)))>>
    [] e.op = "bs_verify" -> <<B01(LegacyVerify(C, B(2), B(3), EcDecode(C, B(4))))>>
    [] e.op = "bs_batch" -> <<B01(AllOf(a, LAMBDA m, t, q : LegacyVerify(C, m, t, EcDecode(C, q))))>>
    [] e.op = "xs_sign" -> LET k == Key(C, B(3)) IN
         <<IF k = NoZ THEN "-" ELSE Txt(BipSign(C, k, B(2), IF a[4] = "NULL" THEN None ELSE B(4)))>>
    [] e.op = "xs_verify" -> <<B01(BipVerify(C, B(2), B(3), B(4)))>>
    [] e.op = "xs_batch" -> <<B01(AllOf(a, LAMBDA m, t, q : BipVerify(C, m, t, q)))>>
    \* keys
    [] e.op = "xs_size" -> <<N(C.ss), N(C.fs), N(C.fs + C.ss), N(C.fs + C.ss)>>
    [] e.op = "xs_pverify" -> <<B01(Key(C, K(2)) # NoZ)>>
    [] e.op = "xs_pexport" -> LET k == Key(C, K(2)) IN
         IF k = NoZ THEN <<"-">>
         ELSE LET d == EvenKey(C, k)
                  Q == EcMul(C, d, C.g) IN <<Txt(BEZ(d, C.ss)), Txt(BEZ(Q[1], C.fs)), Txt(BEZ(Q[2], C.fs))>>
    [] e.op = "xs_pimport" -> LET k == ZBE(B(2)) IN <<Txt(IF GoodScalar(C, k) THEN BEZ(k, C.ss) ELSE None)>>
    [] e.op = "xs_padd" -> LET k == Key(C, K(2))
                               t == Scalar(C, B(3)) IN
         <<IF k = NoZ \/ t = NoZ THEN "-" ELSE Txt(KeyBytes(C, Nonzero((EvenKey(C, k) ++ t) %% C.n)))>>
    [] e.op = "xs_pmul" -> LET k == Key(C, K(2))
                               t == Scalar(C, B(3)) IN
         <<IF k = NoZ \/ t = NoZ THEN "-" ELSE Txt(KeyBytes(C, Nonzero((k ** t) %% C.n)))>>
    [] e.op = "xs_pinv" -> LET k == Key(C, K(2)) IN <<IF k = NoZ THEN "-" ELSE Txt(BEZ(ZInv(k, C.n), C.ss))>>
    [] e.op = "xs_create" -> <<Txt(XKey(C, sc(Key(C, K(2)), LAMBDA x : EcMul(C, x, C.g))))>>
    [] e.op = "xs_check" -> <<B01(P(2) # Inf)>>
    [] e.op = "xs_export" -> IF P(2) = Inf THEN <<"-">> ELSE <<Txt(XOnly(C, P(2))), Txt(BEZ(P(2)[2], C.fs))>>
    [] e.op = "xs_import" -> <<Txt(XKey(C, ImportXY(C, B(2), B(3), FALSE)))>>
    [] e.op = "xs_tadd" -> tw(tadd)
    [] e.op = "xs_tmul" -> tw(tmul)
    [] e.op = "xs_taddc" -> chk(tadd, B(4), a[5])
    [] e.op = "xs_tmulc" -> chk(tmul, B(4), a[5])
    [] e.op = "xs_add2" -> <<Txt(XKey(C, IF P(2) = Inf \/ P(3) = Inf THEN Inf ELSE EcAdd(C, P(2), P(3))))>>
    [] e.op = "xs_combine" -> <<Txt(XKey(C, XSum(C, Tup([i \in 1..(Len(a) - 1) |-> Arg(a[i + 1], s.pub)]))))>>
    [] e.op = "xs_derive" -> <<Txt(XKey(C, on(P(2), LAMBDA Q : sc(Key(C, K(3)), LAMBDA k : EcMul(C, k, Q)))))>>
    [] e.op \in {"xs_gen", "xs_pgrind"} -> <<"key">>
    [] e.op = "xs_grind" -> IF P(2) = Inf THEN <<"-">> ELSE <<"tweak">>
Ok(s, e) ==
  LET a == e.a
      r == e.r
      C == WeiCurves[a[1]]
      want(P, x) == P # Inf /\ ZOdd(P[1]) = (x = 1)
  IN IF e.op \notin {"xs_gen", "xs_pgrind", "xs_grind"} THEN r = Exp(s, e)
     ELSE IF Exp(s, e) = <<"-">> THEN r = <<"-">>
     ELSE IF Len(r) # 1 \/ r[1] = "-" THEN FALSE
     ELSE LET k == Key(C, UnTxt(r[1])) IN
       IF e.op = "xs_gen" THEN k # NoZ
       ELSE IF e.op = "xs_pgrind" THEN IF k = NoZ THEN FALSE ELSE want(EcMul(C, k, C.g), a[3])
       ELSE LET t == Scalar(C, UnTxt(r[1])) IN
            IF t = NoZ THEN FALSE ELSE want(EcAdd(C, XPoint(C, Arg(a[2], s.pub)), EcMul(C, t, C.g)), a[3])
PrivOps == {"xs_gen", "xs_pgrind", "xs_pexport", "xs_pimport", "xs_padd", "xs_pmul", "xs_pinv"}
PubOps == {"xs_create", "xs_import", "xs_add2", "xs_tadd", "xs_tmul", "xs_combine", "xs_derive"}
Nxt(s, e) == IF e.r[1] = "-" THEN s
             ELSE IF e.op \in PrivOps THEN [s EXCEPT !.priv = UnTxt(e.r[1])]
             ELSE IF e.op \in PubOps THEN [s EXCEPT !.pub = UnTxt(e.r[1])]
             ELSE s
TraceInit == TInit([priv |-> <<>>, pub |-> <<>>])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
