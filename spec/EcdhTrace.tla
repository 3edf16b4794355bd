----------------------------- MODULE EcdhTrace -----------------------------
EXTENDS Ecdh, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Exp(s, e) ==
  LET a == e.a
      name == a[1]
      C == MtCurves[name]
      E == EdCurves[IF name = "x25519" THEN "ed25519" ELSE "ed448"]
      B(i) == Hex(a[i])
      P(i, odd) == MtFromU(C, XU(C, B(i)), odd)
  IN
  CASE e.op = "mt_size" -> <<N(C.fs), N(ZBitLen(C.n)), N(C.fs), N(C.bits), N(C.fs), N(C.fs)>>
    [] e.op \in {"mt_gen", "mt_grind"} -> <<"key">>
    [] e.op = "mt_pimport" -> IF ZLt(ZLE(B(2)), Z2(8 * C.fs)) THEN <<Txt(LEZ(ZLE(B(2)), C.fs)), Txt(LEZ(ZLE(B(2)), C.fs)), "1">> ELSE <<"-">>
    [] e.op = "mt_create" -> <<Txt(LEZ(XMul(C, XClamp(C, B(2)), C.u), C.fs))>>
    [] e.op = "mt_derive" -> <<Txt(XDh(C, B(2), B(3)))>>
    [] e.op = "mt_check" -> <<B01(P(2, FALSE) # None)>>
    [] e.op = "mt_small" -> <<B01(IF P(2, FALSE) = None THEN FALSE ELSE MtSmall(C, P(2, FALSE)))>>
    [] e.op = "mt_tors" -> <<B01(IF P(2, FALSE) = None THEN FALSE ELSE MtTorsion(C, P(2, FALSE)))>>
    [] e.op = "mt_export" -> LET X == P(2, a[3] = 1)
         IN IF X = None THEN <<"-">> ELSE IF X[2] = Z0 /\ a[3] = 1 THEN <<"-">> ELSE <<Txt(LEZ(X[1], C.fs)), Txt(LEZ(X[2], C.fs))>>
    [] e.op = "mt_import" -> <<Txt(MtImport(C, B(2), B(3)))>>
    [] e.op = "mt_convert" -> LET X == UToEd(C, E, Conv(name), XU(C, B(2)), a[3] = 1)
         IN IF X = None THEN <<"-">> ELSE <<Txt(TeEncode(E, X))>>
    [] e.op = "ed_tomont" -> LET D == EdCurves[name]
                                 X == TeDecode(D, B(2))
                                 u == EdToU(D, Conv(name), X)
         IN IF X = None THEN <<"-">> ELSE IF u = NoZ THEN <<"-">> ELSE <<Txt(LEZ(u, D.fs))>>
Ok(s, e) ==
  LET a == e.a
      r == e.r
      C == MtCurves[a[1]]
      b == UnTxt(r[1])
      clamped == Len(b) = C.fs /\ ZLE(b) = XClamp(C, b)
  IN CASE e.op = "mt_gen" -> clamped
       [] e.op = "mt_grind" -> clamped /\ ZOdd(XMul(C, ZLE(b), C.u)) = (a[3] = 1)
       \* without a parity either root will do
       [] e.op \in {"mt_export", "mt_convert"} /\ a[3] = -1 -> r = Exp(s, e) \/ (Exp(s, e) # <<"-">> /\ r = Exp(s, [e EXCEPT !.a[3] = 1]))
       [] OTHER -> r = Exp(s, e)
Nxt(s, e) == s
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
