------------------------------ MODULE MapsTrace ----------------------------
(***************************************************************************)
(* Keys from uniform bytes and back.  Operation "tou" reports the result   *)
(* of an inversion for each of 16 hints: the numbers found have to be      *)
(* preimages, and all preimages but the hard ones have to be found.        *)
(*                                                                         *)
(* State: for each subgroup index the multiples of a point of order h that *)
(* may be the one added for it (of the order the index stands for).        *)
(***************************************************************************)
EXTENDS Maps, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Fam(e) == SubSeq(e.op, 1, 2)
What(e) == SubSeq(e.op, 4, Len(e.op))
\* multiples k of a point of order h: 0, then the one of order 2, the two of order 4, the others
Class(h, i) == LET j == i % h
               IN IF j = 0 THEN {0} ELSE IF j = 1 THEN {h \div 2} ELSE IF j < 4 THEN {h \div 4, 3 * (h \div 4)} ELSE {1, 3, 5, 7}
T8 == TeDecode(EdCurves["ed25519"], Hex("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"))
EdTor(name) == IF name = "ed25519" THEN T8 ELSE <<Z1, Z0>>
MtTor(name) == IF name = "x25519" THEN EdMontPt(MapEd("ed25519"), T8) ELSE <<MtCurves[name].p -- Z1, ZRootMod(MtCurves[name].A -- Z(2), MtCurves[name].p)>>
\* uniform bytes as a number and the bits above it
Val(C, b, be) == IF be THEN ZBE(b) ELSE ZLE(b)
Low(C, b, be) == Val(C, b, be) %% Z2(ZBitLen(C.p))
HighBits(C, b, be) == ZInt(Val(C, b, be) // Z2(ZBitLen(C.p)))
Unused(C) == 8 * C.fs - ZBitLen(C.p)
\* the bits asked for, without those that belong to the number
TopBits(C, top) == top \div (2^(8 - Unused(C)))
U(C, b, be) == Low(C, b, be) %% C.p
(******************************** inversions *******************************)
\* the numbers in the results, or NoZ in the set if one of them is not in order
Found(C, e, be, top) ==
  {LET b == UnTxt(e.r[j])
   IN IF Len(b) = C.fs /\ ZLt(Low(C, b, be), C.p) /\ HighBits(C, b, be) = TopBits(C, top) THEN Low(C, b, be) ELSE NoZ : j \in {j \in 1..Len(e.r) : e.r[j] # "-"}}
Fits(S, pre, hard) == S \subseteq pre /\ (pre \ hard) \subseteq S
AllNo(e) == \A j \in 1..Len(e.r) : e.r[j] = "-"
EdFits(s, name, P, S, i) ==
  LET C == EdCurves[name]
      E == MapEd(name)
  IN {k \in s[C.h][i] : Fits(S, EdPre(E, TeAdd(C, P, TeMul(C, Z(k), EdTor(name)))), Ell2Hard(E))}
MtFits(s, name, u, S, i) ==
  LET C == MtCurves[name]
      E == MapMont(name)
      v == ZRootMod(MtRhs(C, u), C.p)
      pre(P) == IF P = Inf THEN {} ELSE Ell2Pre(E, P)
  IN {k \in s[C.h][i] : \E y \in {v, FNeg(v, C.p)} : Fits(S, pre(MtAdd(C, <<u, y>>, MtMul(C, Z(k), MtTor(name)))), Ell2Hard(E))}
RsHard(C, K) == Roots({FDiv(x, K.qnr, C.p) : x \in {Z0, Z(-1), FDiv(C.a, C.d, C.p), FDiv(C.d, C.a, C.p)}}, C.p)
RsSigned(C, S, odd) == {IF u = Z0 THEN u ELSE IF ZOdd(u) = odd THEN u ELSE FNeg(u, C.p) : u \in S}
TouOk(s, e) ==
  LET a == e.a
      name == a[1]
      b == Hex(a[2])
      sub == a[3]
      top == a[4]
  IN CASE Fam(e) = "wm" -> LET C == MapWei(name)
                               P == EcDecode(C, b)
                           IN IF P = Inf THEN AllNo(e) ELSE Fits(Found(C, e, TRUE, top), WPre(C, P), WHard(C))
       [] Fam(e) = "xm" -> LET C == MapWei(name)
                               P == EcFromX(C, ZBE(b), FALSE)
                           IN IF P = Inf THEN AllNo(e) ELSE Fits(Found(C, e, TRUE, top), WPre(C, P), WHard(C))
       [] Fam(e) = "mm" -> LET C == MtCurves[name]
                               u == (ZLE(b) %% Z2(C.bits)) %% C.p
                           IN IF ~FSquare(MtRhs(C, u), C.p) THEN AllNo(e) ELSE MtFits(s, name, u, Found(C, e, FALSE, top), sub) # {}
       [] Fam(e) = "em" -> LET C == EdCurves[name]
                               P == TeDecode(C, b)
                           IN IF P = None THEN AllNo(e) ELSE EdFits(s, name, P, Found(C, e, FALSE, top), sub) # {}
       [] Fam(e) = "rm" -> LET C == EdCurves[name]
                               K == RisConst[name]
                               P == RDecode(C, b)
                               odd == sub % 2 = 1
                           IN IF P = None THEN AllNo(e) ELSE Fits(Found(C, e, FALSE, top), RsSigned(C, RPre(C, K, P), odd), RsHard(C, K))
(********************************** results ********************************)
\* the sum of the images of two halves
Sum(e, b) ==
  LET name == e.a[1]
      f == Fam(e)
  IN IF f \in {"wm", "xm"} THEN LET C == MapWei(name) IN EcAdd(C, WMap(C, WBytesU(C, Take(b, C.fs))), WMap(C, WBytesU(C, Drop(b, C.fs))))
     ELSE IF f = "mm" THEN LET C == MtCurves[name]
                               E == MapMont(name)
                           IN MtAdd(C, Ell2(E, U(C, Take(b, C.fs), FALSE)), Ell2(E, U(C, Drop(b, C.fs), FALSE)))
     ELSE IF f = "em" THEN LET C == EdCurves[name]
                               E == MapEd(name)
                           IN TeAdd(C, EdMap(E, U(C, Take(b, C.fs), FALSE)), EdMap(E, U(C, Drop(b, C.fs), FALSE)))
     ELSE RHash(EdCurves[name], RisConst[name], b)
TohOk(s, e) ==
  LET a == e.a
      name == a[1]
      f == Fam(e)
      r == UnTxt(e.r[1])
      pub == Hex(a[2])
      i == a[3]
  IN CASE f = "wm" -> LET C == MapWei(name)
                          P == EcDecode(C, pub)
                      IN IF P = Inf THEN r = None ELSE Len(r) = 2 * C.fs /\ Sum(e, r) = P
       [] f = "xm" -> LET C == MapWei(name)
                          P == EcFromX(C, ZBE(pub), FALSE)
                      IN IF P = Inf THEN r = None ELSE Len(r) = 2 * C.fs /\ Sum(e, r) = P
       [] f = "mm" -> LET C == MtCurves[name]
                          u == (ZLE(pub) %% Z2(C.bits)) %% C.p
                          v == ZRootMod(MtRhs(C, u), C.p)
                      IN IF v = NoZ THEN r = None
                         ELSE Len(r) = 2 * C.fs /\ \E k \in s[C.h][i], y \in {v, FNeg(v, C.p)} : Sum(e, r) = MtAdd(C, <<u, y>>, MtMul(C, Z(k), MtTor(name)))
       [] f = "em" -> LET C == EdCurves[name]
                          P == TeDecode(C, pub)
                      IN IF P = None THEN r = None
                         ELSE Len(r) = 2 * C.fs /\ \E k \in s[C.h][i] : Sum(e, r) = TeAdd(C, P, TeMul(C, Z(k), EdTor(name)))
       [] f = "rm" -> LET C == EdCurves[name]
                          P == RDecode(C, pub)
                      IN IF P = None THEN r = None ELSE Len(r) = 2 * C.fs /\ REncode(C, Sum(e, r)) = pub
Exp(s, e) ==
  LET a == e.a
      name == a[1]
      b == Hex(a[2])
      f == Fam(e)
  IN CASE What(e) = "map" ->
            (CASE f = "wm" -> LET C == MapWei(name) IN <<Txt(EcEncode(C, WMap(C, WBytesU(C, b)), a[3] = 1))>>
               [] f = "xm" -> LET C == MapWei(name) IN <<Txt(BEZ(WMap(C, WBytesU(C, b))[1], C.fs))>>
               [] f = "mm" -> LET C == MtCurves[name] IN <<Txt(LEZ(Ell2(MapMont(name), U(C, b, FALSE))[1], C.fs))>>
               [] f = "em" -> LET C == EdCurves[name] IN <<Txt(TeEncode(C, EdMap(MapEd(name), U(C, b, FALSE))))>>
               [] f = "rm" -> LET C == EdCurves[name] IN <<Txt(REncode(C, RMap(C, RisConst[name], U(C, b, FALSE))))>>)
       [] What(e) = "hash" ->
            (CASE f = "wm" -> LET C == MapWei(name)
                                  P == Sum(e, b)
                              IN IF P = Inf THEN <<"-">> ELSE <<Txt(EcEncode(C, P, a[3] = 1))>>
               [] f = "xm" -> LET C == MapWei(name)
                                  P == Sum(e, b)
                              IN IF P = Inf THEN <<"-">> ELSE <<Txt(BEZ(P[1], C.fs))>>
               [] f = "mm" -> LET C == MtCurves[name]
                                  P == IF a[3] = 1 THEN MtMul(C, Z(C.h), Sum(e, b)) ELSE Sum(e, b)
                              IN IF P = Inf THEN <<"-">> ELSE <<Txt(LEZ(P[1], C.fs))>>
               [] f = "em" -> LET C == EdCurves[name]
                              IN <<Txt(TeEncode(C, IF a[3] = 1 THEN TeMul(C, Z(C.h), Sum(e, b)) ELSE Sum(e, b)))>>
               [] f = "rm" -> <<Txt(REncode(EdCurves[name], Sum(e, b)))>>)
       [] OTHER -> <<"preimages">>
Ok(s, e) == CASE What(e) = "tou" -> TouOk(s, e)
              [] What(e) = "toh" -> TohOk(s, e)
              [] OTHER -> e.r = Exp(s, e)
\* what the inversion tells about the point of the subgroup
Nxt(s, e) ==
  IF What(e) # "tou" \/ Fam(e) # "em" THEN s
  ELSE LET C == EdCurves[e.a[1]]
           P == TeDecode(C, Hex(e.a[2]))
           i == e.a[3]
           fit == EdFits(s, e.a[1], P, Found(C, e, FALSE, e.a[4]), i)
       IN IF P = None THEN s
          ELSE [s EXCEPT ![C.h] = [j \in 0..15 |->
                  IF j % C.h = i % C.h THEN fit
                  \* another index stands for another point
                  ELSE IF Cardinality(fit) = 1 THEN s[C.h][j] \ fit ELSE s[C.h][j]]]
TraceInit == TInit([h \in {4, 8} |-> [i \in 0..15 |-> Class(h, i)]])
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
