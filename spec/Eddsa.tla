------------------------------- MODULE Eddsa -------------------------------
(***************************************************************************)
(* EdDSA (RFC 8032) over the Edwards curves of Curves: point encodings,    *)
(* key expansion, signatures with context and prehash flag, verification   *)
(* with and without the cofactor, and operations on keys.                  *)
(***************************************************************************)
EXTENDS Curves, Hash
None == <<-1>>
(******************************** encodings ********************************)
\* the point with a y-coordinate below p and the parity of x; None if there is no such point
TeFromY(C, y, odd) ==
  IF ~ZLt(y, C.p) THEN None
  ELSE LET x == FRootPar(TeXX(C, y), odd, C.p)
       IN IF x = NoZ THEN None ELSE IF x = Z0 /\ odd THEN None ELSE <<x, y>>
TeFromX(C, x, odd) ==
  IF ~ZLt(x, C.p) THEN None
  ELSE LET y == FRootPar(FDiv((C.a ** x ** x) -- Z1, (C.d ** x ** x) -- Z1, C.p), odd, C.p)
       IN IF y = NoZ THEN None ELSE IF y = Z0 /\ odd THEN None ELSE <<x, y>>
\* the sign of x in the highest bit of the encoding
TeEncode(C, P) == LEZ(P[2] ++ (IF ZOdd(P[1]) THEN Z2(8 * C.es - 1) ELSE Z0), C.es)
TeDecode(C, b) == LET v == ZLE(b)
                      top == Z2(8 * C.es - 1)
                  IN TeFromY(C, v %% top, ZGe(v, top))
TePub(C, P) == IF P = None THEN None ELSE TeEncode(C, P)
(********************************** keys ***********************************)
\* a multiple of the cofactor with the top bit set
ClampZ(C, v) == LET low == v %% Z2(C.bits - 1)
                IN (low -- (low %% Z(C.h))) ++ Z2(C.bits - 1)
Clamp(C, b) == LEZ(ClampZ(C, ZLE(b)), C.ss)
ScZ(C, b) == ZLE(b) %% C.n
ScB(C, k) == LEZ(k %% C.n, C.ss)
EdHash(C, m) == Take(HashFX(C.hash, 2 * C.es, m), 2 * C.es)
ExpandScalar(C, priv) == Clamp(C, Take(EdHash(C, priv), C.ss))
ExpandPrefix(C, priv) == Drop(EdHash(C, priv), C.es)
TePubOf(C, scalar) == TeMul(C, ScZ(C, scalar), C.g)
(******************************* signatures ********************************)
\* ph: -1 without, 0 or 1: prehash flag; the plain instance of Ed25519 has no prefix
EdDom(C, ph, ctx) ==
  IF C.always \/ ph # -1 \/ ctx # <<>> THEN Ascii(C.dom) \o <<IF ph > 0 THEN 1 ELSE 0, Len(ctx)>> \o ctx ELSE <<>>
EdScalar(C, ph, ctx, m) == ZLE(EdHash(C, EdDom(C, ph, ctx) \o m)) %% C.n
EdSign(C, msg, scalar, prefix, ph, ctx) ==
  LET k == EdScalar(C, ph, ctx, prefix \o msg)
      a == ScZ(C, scalar)
      R == TeEncode(C, TeMul(C, k, C.g))
      A == TeEncode(C, TeMul(C, a, C.g))
      e == EdScalar(C, ph, ctx, R \o A \o msg)
  IN R \o LEZ((k ++ (e ** a)) %% C.n, C.es)
TweakPrefix(C, prefix, tweak) == Take(HashFX(C.hash, C.es, prefix \o tweak), C.es)
\* s G - e A - R
EdDiff(C, s, e, A, R) == TeSub(C, TeSub(C, TeMul(C, s, C.g), TeMul(C, e, A)), R)
EdVerify(C, msg, sig, pub, ph, ctx, cofactor) ==
  LET Rb == Take(sig, C.es)
      R == TeDecode(C, Rb)
      A == TeDecode(C, pub)
      s == ZLE(Drop(sig, C.es))
      D == EdDiff(C, s, EdScalar(C, ph, ctx, Rb \o pub \o msg), A, R)
  IN IF R = None \/ A = None \/ ~ZLt(s, C.n) THEN FALSE
     ELSE (IF cofactor THEN TeMul(C, Z(C.h), D) ELSE D) = TeId
TeSum(C, Ps) == IF \E i \in 1..Len(Ps) : Ps[i] = None THEN None ELSE Fold(LAMBDA S, P : TeAdd(C, S, P), TeId, Ps)
IsSmall(C, P) == P # TeId /\ TeMul(C, Z(C.h), P) = TeId
HasTorsion(C, P) == TeMul(C, C.n, P) # TeId
\* coordinates: both, or one with the parity of the other
TeImport(C, x, y, odd) ==
  LET u == ZLE(x)
      v == ZLE(y)
  IN IF x = <<>> /\ y = <<>> THEN None
     ELSE IF ~ZLt(u, C.p) \/ ~ZLt(v, C.p) THEN None
     ELSE IF x = <<>> THEN TeFromY(C, v, odd)
     ELSE IF y = <<>> THEN TeFromX(C, u, odd)
     ELSE IF TeOn(C, <<u, v>>) THEN <<u, v>> ELSE None
=============================================================================
