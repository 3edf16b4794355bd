-------------------------------- MODULE Maps -------------------------------
(***************************************************************************)
(* Maps from field elements to points: the simplified SWU map (RFC 9380,   *)
(* 6.6.2), the map of Shallue and van de Woestijne for a = 0 (6.6.1) and   *)
(* Elligator 2 (6.7.1), with all of their preimages.  In every map the     *)
(* parity of the second coordinate is the one of the field element.        *)
(*                                                                         *)
(* XxxPre(C, P) is the set of the numbers that map to P; XxxHard(C) are    *)
(* those where the map's formula divides by zero, or zero itself: an       *)
(* inversion need not find these.                                          *)
(***************************************************************************)
EXTENDS Ristretto, TLC
WithPar(x, rhs, u, p) == <<x %% p, FRootPar(rhs, ZOdd(u), p)>>
\* both roots of the x in S (numbers mod p)
Roots(S, p) == UNION {LET y == ZRootMod(x, p) IN IF y = NoZ THEN {} ELSE {y, FNeg(y, p)} : x \in S}
\* the roots of t^2 + b t + c
Quadratic(b, c, p) == LET y == ZRootMod((b ** b) -- (Z(4) ** c), p)
                          i2 == ZInv(Z(2), p)
                      IN IF y = NoZ THEN {} ELSE {((y -- b) ** i2) %% p, ((ZNeg(y) -- b) ** i2) %% p}
(******************************* simplified SWU ****************************)
Sswu(C, u) ==
  LET p == C.p
      t == (C.z ** u ** u) %% p
      q == (FSq(t, p) ++ t) %% p
      ba == FDiv(ZNeg(C.b), C.a, p)
      x1 == IF q = Z0 THEN FDiv(C.b, C.z ** C.a, p) ELSE (ba ** (Z1 ++ ZInv(q, p))) %% p
      x2 == (t ** x1) %% p
  IN IF FSquare(EcRhs(C, x1), p) THEN WithPar(x1, EcRhs(C, x1), u, p) ELSE WithPar(x2, EcRhs(C, x2), u, p)
SswuHard(C) == Roots({Z0, FDiv(Z(-1), C.z, C.p)}, C.p)
SswuPre(C, P) ==
  LET p == C.p
      w == FDiv(ZNeg(C.a ** P[1]), C.b, p)
      \* x = x1: w = 1 + 1/(t^2 + t);  x = x2: w = t + 1/(t + 1)
      ts == Quadratic(Z1, ZNeg(ZInv((w -- Z1) %% p, p)), p) \cup Quadratic(Z1 -- w, Z1 -- w, p)
      us == Roots({FDiv(t, C.z, p) : t \in ts}, p) \cup SswuHard(C)
  IN {u \in us : Sswu(C, u) = P}
(************************* Shallue - van de Woestijne **********************)
\* C.c: the root of -3 z^2 that is used
Svdw(C, u) ==
  LET p == C.p
      z == C.z
      s == (u ** u) %% p
      gz == EcRhs(C, z)
      t3 == FDiv(C.c ** s ** s, s ** (s ++ gz), p)
      i2 == ZInv(Z(2), p)
      x1 == (((C.c -- z) ** i2) -- t3) %% p
      x2 == (t3 -- ((C.c ++ z) ** i2)) %% p
      x3 == (z -- FDiv((s ++ gz) ** (s ++ gz) ** (s ++ gz), Z(3) ** z ** z ** s ** (s ++ gz), p)) %% p
      x == IF FSquare(EcRhs(C, x1), p) THEN x1 ELSE IF FSquare(EcRhs(C, x2), p) THEN x2 ELSE x3
  IN WithPar(x, EcRhs(C, x), u, p)
SvdwHard(C) == Roots({Z0, FNeg(EcRhs(C, C.z), C.p)}, C.p)
SvdwPre(C, P) ==
  LET p == C.p
      z == C.z
      gz == EcRhs(C, z)
      i2 == ZInv(Z(2), p)
      \* u^2 from c u^2/(u^2 + g(z)) = t
      s(t) == FDiv(gz ** t, C.c -- t, p)
      \* (u^2 + g(z))^2 = k u^2
      k == Z(3) ** z ** z ** (z -- P[1])
      ss == {s(((C.c -- z) ** i2) -- P[1]), s(P[1] ++ ((C.c ++ z) ** i2))} \cup Quadratic((Z(2) ** gz) -- k, gz ** gz, p)
      us == Roots(ss, p) \cup SvdwHard(C)
  IN {u \in us : Svdw(C, u) = P}
(******************************** Elligator 2 ******************************)
\* E: v^2 = u^3 + E.A u^2 + E.B u
ERhs(E, x) == ((x ** x ** x) ++ (E.A ** x ** x) ++ (E.B ** x)) %% E.p
Ell2(E, u) ==
  LET p == E.p
      d == (Z1 ++ (E.z ** u ** u)) %% p
      x1 == FDiv(ZNeg(E.A), IF d = Z0 THEN Z1 ELSE d, p)
      x2 == (ZNeg(x1) -- E.A) %% p
  IN IF FSquare(ERhs(E, x1), p) THEN WithPar(x1, ERhs(E, x1), u, p) ELSE WithPar(x2, ERhs(E, x2), u, p)
Ell2Hard(E) == Roots({Z0, FDiv(Z(-1), E.z, E.p)}, E.p)
Ell2Pre(E, P) ==
  LET p == E.p
      ts == {(FDiv(ZNeg(E.A), P[1], p) -- Z1) %% p, (FDiv(E.A, P[1] ++ E.A, p) -- Z1) %% p}
      us == Roots({FDiv(t, E.z, p) : t \in ts}, p) \cup Ell2Hard(E)
  IN {u \in us : Ell2(E, u) = P}
\* Montgomery curve B v^2 = u^3 + A u^2 + u of an Edwards curve and the maps between them: x = c u/v and
\* y = (u - 1)/(u + 1), or (inv) y = (u + 1)/(u - 1)
EdMont(C, c, inv, z) ==
  LET p == C.p
      A == FDiv(Z(2) ** (C.a ++ C.d), IF inv THEN C.d -- C.a ELSE C.a -- C.d, p)
      B == FDiv(IF inv THEN A -- Z(2) ELSE A ++ Z(2), C.a ** c ** c, p)
  IN [p |-> p, A |-> FDiv(A, B, p), B |-> FDiv(Z1, B ** B, p), scale |-> B, z |-> z %% p, c |-> c, inv |-> inv]
MontEd(E, M) ==
  LET u == M[1] ** E.scale
      v == M[2] ** E.scale
  IN <<IF M[1] = Z0 THEN Z0 ELSE FDiv(E.c ** u, v, E.p), IF E.inv THEN FDiv(u ++ Z1, u -- Z1, E.p) ELSE FDiv(u -- Z1, u ++ Z1, E.p)>>
EdMontPt(E, P) ==
  LET p == E.p
      u == IF E.inv THEN FDiv(P[2] ++ Z1, P[2] -- Z1, p) ELSE FDiv(Z1 ++ P[2], Z1 -- P[2], p)
      v == FDiv(E.c ** u, P[1], p)
  IN <<FDiv(u, E.scale, p), FDiv(v, E.scale, p)>>
EdMap(E, u) == MontEd(E, Ell2(E, u))
EdPre(E, P) == IF P = TeId THEN {} ELSE Ell2Pre(E, EdMontPt(E, P))
(******************************** parameters *******************************)
\* the curves with the constants of their maps
MapWei(name) == IF name = "secp256k1" THEN [c |-> ZHex("0a2d2ba93507f1df233770c2a797962cc61f6d15da14ecd47d8d27ae1cd5f852")] @@ WeiCurves[name] ELSE WeiCurves[name]
WMap(C, u) == IF C.a = Z0 THEN Svdw(C, u) ELSE Sswu(C, u)
WPre(C, P) == IF P = Inf THEN {} ELSE IF C.a = Z0 THEN SvdwPre(C, P) ELSE SswuPre(C, P)
WHard(C) == IF C.a = Z0 THEN SvdwHard(C) ELSE SswuHard(C)
MapMont(name) == [p |-> MtCurves[name].p, A |-> MtCurves[name].A, B |-> Z1, z |-> (IF name = "x25519" THEN Z(2) ELSE Z(-1)) %% MtCurves[name].p]
MapEd(name) ==
  LET C == EdCurves[name]
  IN CASE name = "ed25519" -> EdMont(C, ZHex("0f26edf460a006bbd27b08dc03fc4f7ec5a1d3d14b7d1a82cc6e04aaff457e06"), FALSE, Z(2))
       [] name = "ed448" -> EdMont(C, ZHex("4136d02f925d530d4b1d9e178310f2cbdd18a3e7c3a767a848e6db198c3d06311e725a0db991d0c6c3d1120f0efa59f54bf38e82b0e1e028"), TRUE, Z(-1))
       [] name = "ed1174" -> EdMont(C, ZHex("005a7a03fb02f7195e441cd2e3f708f96f8ffbe8359548ba8276ace6bbe7dfd2"), TRUE, Z(-1))
\* uniform bytes: bits above the size of the field are ignored
WBytesU(C, b) == (ZBE(b) %% Z2(ZBitLen(C.p))) %% C.p
=============================================================================
