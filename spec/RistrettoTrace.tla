--------------------------- MODULE RistrettoTrace --------------------------
(***************************************************************************)
(* Operations on keys of the prime-order groups; "." refers to the last    *)
(* private or public key.                                                  *)
(***************************************************************************)
EXTENDS Ristretto, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Arg(x, last) == IF x = "." THEN last ELSE Hex(x)
\* what the predicate of the drivers looks at
Bit1(C, P) == (REncode(C, P)[1] \div 2) % 2
Exp(s, e) ==
  LET a == e.a
      C == EdCurves[a[1]]
      K == RisConst[a[1]]
      B(i) == Hex(a[i])
      \* scalars in range
      k(i) == LET v == ZLE(Arg(a[i], s.priv)) IN IF ZLt(v, C.n) THEN v ELSE NoZ
      P(i) == RDecode(C, Arg(a[i], s.pub))
      on(Q, f(_)) == IF Q = None THEN None ELSE f(Q)
      pub(Q) == <<Txt(REnc(C, Q))>>
      priv(v) == <<Txt(LEZ(v %% C.n, C.ss))>>
      no == <<"-">>
  IN
  CASE e.op = "rs_size" -> <<N(C.ss), N(C.fs)>>
    [] e.op = "rs_rand" -> OK
    [] e.op \in {"rs_keygen", "rs_grind"} -> <<"key">>
    [] e.op = "rs_pwide" -> priv(ZLE(B(2)))
    [] e.op = "rs_pverify" -> <<B01(k(2) # NoZ)>>
    [] e.op = "rs_pzero" -> <<B01(k(2) = Z0)>>
    [] e.op = "rs_pimport" -> IF ZLt(ZLE(B(2)), C.n) THEN <<Txt(LEZ(ZLE(B(2)), C.ss)), Txt(LEZ(ZLE(B(2)), C.ss))>> ELSE no
    [] e.op = "rs_pexport" -> IF k(2) = NoZ THEN no ELSE priv(k(2))
    [] e.op = "rs_padd" -> IF k(2) = NoZ \/ k(3) = NoZ THEN no ELSE priv(k(2) ++ k(3))
    [] e.op = "rs_pmul" -> IF k(2) = NoZ \/ k(3) = NoZ \/ (k(2) ** k(3)) %% C.n = Z0 THEN no ELSE priv(k(2) ** k(3))
    [] e.op = "rs_pneg" -> IF k(2) = NoZ THEN no ELSE priv(ZNeg(k(2)))
    [] e.op = "rs_pinv" -> IF k(2) = NoZ THEN no ELSE priv(ZInv(k(2), C.n))
    [] e.op = "rs_create" -> IF k(2) = NoZ THEN no ELSE pub(TeMul(C, k(2), C.g))
    [] e.op = "rs_pgrind" -> IF P(2) = None THEN no ELSE <<"tweak">>
    [] e.op = "rs_check" -> <<B01(P(2) # None)>>
    [] e.op = "rs_inf" -> <<B01(P(2) = TeId)>>
    [] e.op = "rs_tadd" -> IF k(3) = NoZ THEN no ELSE pub(on(P(2), LAMBDA Q : TeAdd(C, Q, TeMul(C, k(3), C.g))))
    [] e.op = "rs_tmul" -> IF k(3) = NoZ THEN no ELSE pub(on(P(2), LAMBDA Q : LET R == TeMul(C, k(3), Q) IN IF RIsId(C, R) THEN None ELSE R))
    [] e.op = "rs_derive" -> IF k(3) = NoZ THEN no ELSE pub(on(P(2), LAMBDA Q : TeMul(C, k(3), Q)))
    [] e.op = "rs_add" -> pub(TeSum(C, <<P(2), P(3)>>))
    [] e.op = "rs_combine" -> pub(TeSum(C, Tup([i \in 1..(Len(a) - 1) |-> P(i + 1)])))
    [] e.op = "rs_neg" -> pub(on(P(2), LAMBDA Q : TeNeg(C, Q)))
    [] e.op = "rs_map" -> pub(RMap(C, K, RBytesU(C, B(2))))
    [] e.op = "rs_hash" -> pub(RHash(C, K, B(2)))
Ok(s, e) ==
  LET a == e.a
      r == e.r
      C == EdCurves[a[1]]
      b == UnTxt(r[1])
      valid == Len(b) = C.ss /\ ZLt(ZLE(b), C.n)
  IN CASE e.op = "rs_keygen" -> valid /\ ZLE(b) # Z0
       [] e.op = "rs_grind" -> valid /\ Bit1(C, TeMul(C, ZLE(b), C.g)) = a[3]
       [] e.op = "rs_pgrind" -> LET P == RDecode(C, Arg(a[2], s.pub)) IN IF P = None THEN r = Exp(s, e) ELSE valid /\ Bit1(C, TeAdd(C, P, TeMul(C, ZLE(b), C.g))) = a[3]
       [] OTHER -> r = Exp(s, e)
PrivOps == {"rs_keygen", "rs_grind", "rs_pwide", "rs_pimport", "rs_padd", "rs_pmul", "rs_pneg", "rs_pinv", "rs_pgrind"}
PubOps == {"rs_create", "rs_tadd", "rs_tmul", "rs_derive", "rs_add", "rs_combine", "rs_neg", "rs_map", "rs_hash"}
Nxt(s, e) == IF e.r[1] = "-" THEN s
             ELSE IF e.op \in PrivOps THEN [s EXCEPT !.priv = UnTxt(e.r[1])]
             ELSE IF e.op \in PubOps THEN [s EXCEPT !.pub = UnTxt(e.r[1])]
             ELSE s
TraceInit == TInit([priv |-> <<>>, pub |-> <<>>])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
