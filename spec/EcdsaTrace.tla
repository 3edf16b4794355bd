----------------------------- MODULE EcdsaTrace ----------------------------
(***************************************************************************)
(* ECDSA calls on a curve object (first argument: the curve).  Randomising *)
(* the object is a step that changes nothing observable.  The state is the *)
(* last private and public key produced, which "." arguments refer to.     *)
(***************************************************************************)
EXTENDS Ecdsa, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
\* "." stands for the key the previous operations left
Arg(x, last) == IF x = "." THEN last ELSE Hex(x)
Exp(s, e) ==
  LET a == e.a
      C == WeiCurves[a[1]]
      B(i) == Hex(a[i])
      K(i) == Arg(a[i], s.priv)
      P(i) == EcDecode(C, Arg(a[i], s.pub))
      cmp(i) == a[i] = 1
      \* combination of a private key and a scalar
      pk(a1, f(_)) == IF a1 = NoZ THEN None ELSE KeyBytes(C, Nonzero(f(a1) %% C.n))
      pt(Q, i) == <<Txt(Point(C, Q, cmp(i)))>>
      on(Q, f(_)) == IF Q = Inf THEN Inf ELSE f(Q)
      sc(t, f(_)) == IF t = NoZ THEN Inf ELSE f(t)
  IN
  CASE e.op = "ec_rand" -> OK
    [] e.op = "ec_size" -> <<N(C.ss), N(ZBitLen(C.n)), N(C.fs), N(ZBitLen(C.p)), N(C.ss), N(C.fs + 1), N(2 * C.fs + 1), N(2 * C.ss)>>
    [] e.op = "ec_sign" -> LET k == Key(C, B(3)) IN
         IF k = NoZ THEN <<"-">>
         ELSE LET t == SignZ(C, k, DigestZ(C, B(2)), a[4]) IN <<Txt(Two(C, t[1], t[2])), N(t[3])>>
    [] e.op = "ec_verify" -> <<B01(VerifyZ(C, DigestZ(C, B(2)), SigR(C, B(3)), SigS(C, B(3)), P(4)))>>
    [] e.op = "ec_recover" -> pt(RecoverZ(C, DigestZ(C, B(2)), SigR(C, B(3)), SigS(C, B(3)), a[4]), 5)
    [] e.op = "ec_sigexp" -> <<Txt(SigToDer(C, B(2)))>>
    [] e.op = "ec_sigimp" -> <<Txt(SigFromDer(C, B(2)))>>
    [] e.op = "ec_siglax" -> <<Txt(SigFromLax(C, B(2)))>>
    [] e.op = "ec_norm" -> LET r == SigR(C, B(2))
                               t == SigS(C, B(2)) IN
         <<IF InRange(C, r, t) THEN Txt(Two(C, r, LowS(C, t))) ELSE "-">>
    [] e.op = "ec_low" -> <<B01(InRange(C, SigR(C, B(2)), SigS(C, B(2))) /\ ~High(C, SigS(C, B(2))))>>
    \* keys
    [] e.op = "ec_pverify" -> <<B01(Key(C, K(2)) # NoZ)>>
    [] e.op = "ec_pexport" -> <<Txt(KeyBytes(C, Key(C, K(2))))>>
    [] e.op = "ec_pimport" -> LET k == ZBE(B(2)) IN <<Txt(IF GoodScalar(C, k) THEN BEZ(k, C.ss) ELSE None)>>
    [] e.op = "ec_padd" -> LET t == Scalar(C, B(3)) IN <<Txt(IF t = NoZ THEN None ELSE pk(Key(C, K(2)), LAMBDA k : k ++ t))>>
    [] e.op = "ec_pmul" -> LET t == Scalar(C, B(3)) IN <<Txt(IF t = NoZ THEN None ELSE pk(Key(C, K(2)), LAMBDA k : k ** t))>>
    [] e.op = "ec_pneg" -> <<Txt(pk(Key(C, K(2)), ZNeg))>>
    [] e.op = "ec_pinv" -> <<Txt(pk(Key(C, K(2)), LAMBDA k : ZInv(k, C.n)))>>
    [] e.op = "ec_create" -> LET k == Key(C, K(2)) IN pt(sc(k, LAMBDA x : EcMul(C, x, C.g)), 3)
    [] e.op = "ec_conv" -> pt(P(2), 3)
    [] e.op = "ec_check" -> <<B01(P(2) # Inf)>>
    [] e.op = "ec_export" -> IF P(2) = Inf THEN <<"-">> ELSE <<Txt(BEZ(P(2)[1], C.fs)), Txt(BEZ(P(2)[2], C.fs))>>
    [] e.op = "ec_import" -> pt(ImportXY(C, B(2), B(3), a[4] = 1), 5)
    [] e.op = "ec_add2" -> pt(IF P(2) = Inf \/ P(3) = Inf THEN Inf ELSE EcAdd(C, P(2), P(3)), 4)
    [] e.op = "ec_tadd" -> pt(on(P(2), LAMBDA Q : sc(Scalar(C, B(3)), LAMBDA t : EcAdd(C, Q, EcMul(C, t, C.g)))), 4)
    [] e.op = "ec_tmul" -> pt(on(P(2), LAMBDA Q : sc(Scalar(C, B(3)), LAMBDA t : EcMul(C, t, Q))), 4)
    [] e.op = "ec_neg" -> pt(EcNeg(C, P(2)), 3)
    [] e.op = "ec_combine" -> pt(SumPoints(C, Tup([i \in 1..(Len(a) - 2) |-> Arg(a[i + 2], s.pub)])), 2)
    [] e.op = "ec_derive" -> pt(on(P(2), LAMBDA Q : sc(Key(C, K(3)), LAMBDA k : EcMul(C, k, Q))), 4)
    [] e.op \in {"ec_gen", "ec_pgrind"} -> <<"key">>
    [] e.op = "ec_grind" -> IF P(2) = Inf THEN <<"-">> ELSE <<"tweak">>
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
\* grinding ends at a point whose encoding satisfies the predicate: last byte of x even or odd as asked
Ok(s, e) ==
  LET a == e.a
      r == e.r
      C == WeiCurves[a[1]]
      want(P, x) == P # Inf /\ ZOdd(P[1]) = (x = 1)
  IN IF e.op \notin {"ec_gen", "ec_pgrind", "ec_grind", "ec_import"} THEN r = Exp(s, e)
     ELSE IF e.op = "ec_import" THEN
       \/ r = Exp(s, e)
       \* no parity asked for: either point will do
       \/ a[4] = -1 /\ a[3] = "" /\ r = Exp(s, [e EXCEPT !.a = [@ EXCEPT ![4] = 1]])
     ELSE IF Exp(s, e) = <<"-">> THEN r = <<"-">>
     ELSE IF Len(r) # 1 \/ r[1] = "-" THEN FALSE
     ELSE LET k == Key(C, UnTxt(r[1])) IN
       IF e.op = "ec_gen" THEN k # NoZ
       ELSE IF e.op = "ec_pgrind" THEN IF k = NoZ THEN FALSE ELSE want(EcMul(C, k, C.g), a[3])
       ELSE LET t == Scalar(C, UnTxt(r[1])) IN
            IF t = NoZ THEN FALSE ELSE want(EcAdd(C, EcDecode(C, Arg(a[2], s.pub)), EcMul(C, t, C.g)), a[3])
PrivOps == {"ec_gen", "ec_pgrind", "ec_pexport", "ec_pimport", "ec_padd", "ec_pmul", "ec_pneg", "ec_pinv"}
PubOps == {"ec_recover", "ec_create", "ec_conv", "ec_import", "ec_add2", "ec_tadd", "ec_tmul", "ec_neg", "ec_combine", "ec_derive"}
Nxt(s, e) == IF e.r[1] = "-" THEN s
             ELSE IF e.op \in PrivOps THEN [s EXCEPT !.priv = UnTxt(e.r[1])]
             ELSE IF e.op \in PubOps THEN [s EXCEPT !.pub = UnTxt(e.r[1])]
             ELSE s
TraceInit == TInit([priv |-> <<>>, pub |-> <<>>])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
