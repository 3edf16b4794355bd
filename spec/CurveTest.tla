----------------------------- MODULE CurveTest -----------------------------
(***************************************************************************)
(* The groups of small curves, exhaustively: group axioms, the fast        *)
(* multiplications against double-and-add, the ladder against the affine   *)
(* law on the curve and on its twist; and on the real curves: parameters   *)
(* (base point on the curve, of order n) and the fast operators on the     *)
(* scalars around n.                                                       *)
(***************************************************************************)
EXTENDS Curve, Curves, TLC
F(p) == {Z(i) : i \in 0..(p - 1)}
\* prime order 19 over F_17 (a = 2), order 13 over F_11 (larger than p), order 7 over F_13 with a = 0
Toys == <<[p |-> Z(17), a |-> Z(2), b |-> Z(2), n |-> Z(19)], [p |-> Z(13), a |-> Z0, b |-> Z(7), n |-> Z(7)], [p |-> Z(23), a |-> Z(20), b |-> Z(4), n |-> Z(0)],
          [p |-> Z(11), a |-> Z(1), b |-> Z(6), n |-> Z(13)]>>
Pts(C) == {Inf} \cup {P \in F(ZInt(C.p)) \X F(ZInt(C.p)) : EcOn(C, P)}
\* a square, d not
TToys == <<[p |-> Z(13), a |-> Z(12), d |-> Z(2)], [p |-> Z(19), a |-> Z1, d |-> Z(2)], [p |-> Z(29), a |-> Z(28), d |-> Z(3)]>>
TPts(C) == {P \in F(ZInt(C.p)) \X F(ZInt(C.p)) : TeOn(C, P)}
MToys == <<[p |-> Z(13), A |-> Z(6)], [p |-> Z(19), A |-> Z(10)], [p |-> Z(29), A |-> Z(6)]>>
MPts(C) == {Inf} \cup {P \in F(ZInt(C.p)) \X F(ZInt(C.p)) : MtOn(C, P)}
WNames == <<"p192", "p224", "p256", "p384", "p521", "secp256k1">>
ENames == <<"ed25519", "ed448", "ed1174">>
MNames == <<"x25519", "x448">>
VARIABLES kind, t, P, Q
vars == <<kind, t, P, Q>>
Init == P = <<0>> /\ Q = 0 /\ \E c \in ({"wei"} \X (1..Len(Toys))) \cup ({"te"} \X (1..Len(TToys)))
        \cup ({"mt"} \X (1..Len(MToys))) \cup {<<"real", i>> : i \in 1..Len(WNames)}
        \cup {<<"realte", i>> : i \in 1..Len(ENames)} \cup {<<"realmt", i>> : i \in 1..Len(MNames)}
        \cup ({"root"} \X {3, 5, 7, 11, 13, 17, 29, 41, 97, 193}) : kind = c[1] /\ t = c[2]
\* coordinates kept as TLC integers in the state
I(X) == IF X = Inf THEN <<>> ELSE <<ZInt(X[1]), ZInt(X[2])>>
O(X) == IF X = <<>> THEN Inf ELSE <<Z(X[1]), Z(X[2])>>
Next == /\ P = <<0>> /\ UNCHANGED <<kind, t>>
        /\ CASE kind = "wei" -> \E X, Y \in Pts(Toys[t]) : P' = I(X) /\ Q' = I(Y)
             [] kind = "te" -> \E X, Y \in TPts(TToys[t]) : P' = I(X) /\ Q' = I(Y)
             [] kind = "mt" -> \E X \in MPts(MToys[t]) : P' = I(X) /\ Q' = 0
             [] kind = "real" -> P' = <<>> /\ Q' \in -4..4
             [] kind = "realte" -> P' = <<>> /\ Q' \in -4..4
             [] kind = "realmt" -> P' = <<>> /\ Q' \in 0..3
             [] OTHER -> P' = <<>> /\ Q' \in 0..(t - 1)
Wei1 == kind = "wei" /\ P # <<0>> =>
  LET C == Toys[t]
      X == O(P)
      Y == O(Q)
      S == EcAdd(C, X, Y)
  IN /\ S \in Pts(C) /\ S = EcAdd(C, Y, X)
     /\ \A W \in Pts(C) : EcAdd(C, S, W) = EcAdd(C, X, EcAdd(C, Y, W))
     /\ EcAdd(C, X, EcNeg(C, X)) = Inf
     /\ (Q = <<>> => \A k \in 0..40 : EcMulF(C.p, C.a, Z(k), X) = EcMulDef(C.p, C.a, Z(k), X))
     /\ (C.n # Z0 => EcMulF(C.p, C.a, C.n, X) = Inf)
Te1 == kind = "te" /\ P # <<0>> =>
  LET C == TToys[t]
      X == O(P)
      Y == O(Q)
      S == TeAdd(C, X, Y)
  IN /\ S \in TPts(C) /\ S = TeAdd(C, Y, X)
     /\ \A W \in TPts(C) : TeAdd(C, S, W) = TeAdd(C, X, TeAdd(C, Y, W))
     /\ TeAdd(C, X, TeNeg(C, X)) = TeId
     /\ (Q = <<0, 1>> => \A k \in 0..40 : TeMulF(C.p, C.a, C.d, Z(k), X) = TeMulDef(C.p, C.a, C.d, Z(k), X))
\* on the curve and, with v^2 scaled by a non-square, on the twist
Mt1 == kind = "mt" =>
  LET C == MToys[t]
      Uof(X) == IF X = Inf THEN Z0 ELSE X[1]
  IN /\ (P # <<0>> => \A k \in 0..31 : LET X == O(P) IN
           (X # Inf => Ladder(C.p, C.A, 5, Z(k), X[1]) = Uof(MtMul(C, Z(k), X))))
     /\ (P = <<0>> => \A u \in F(ZInt(C.p)) : \A k \in 0..31 : Ladder(C.p, C.A, 5, Z(k), u) = LadderDef(C.p, C.A, 5, Z(k), u))
     /\ (P = <<0>> => \A u \in F(ZInt(C.p)) : ~FSquare(MtRhs(C, u), C.p) =>
          LET w == MtRhs(C, u)               \* w y^2 = x^3 + A x^2 + x has the point (u, 1)
              T == [p |-> C.p, A |-> (w ** C.A) %% C.p, S |-> FSq(w, C.p)]
              \* y^2 = x^3 + A w x^2 + w^2 x with x = w u
              add(X, Y) ==
                LET f(l) == LET x == ((l ** l) -- T.A -- X[1] -- Y[1]) %% T.p IN <<x, ((l ** (X[1] -- x)) -- X[2]) %% T.p>>
                IN IF X = Inf THEN Y ELSE IF Y = Inf THEN X
                   ELSE IF X[1] # Y[1] THEN f(FDiv(Y[2] -- X[2], Y[1] -- X[1], T.p))
                   ELSE IF X[2] # Y[2] \/ X[2] = Z0 THEN Inf
                   ELSE f(FDiv((Z(3) ** X[1] ** X[1]) ++ (Z(2) ** T.A ** X[1]) ++ T.S, Z(2) ** X[2], T.p))
              X0 == <<(w ** u) %% T.p, FSq(w, T.p)>>
              m(k) == Iter(LAMBDA x, i : add(x, X0), Inf, k)
          IN \A k \in 0..31 : Ladder(C.p, C.A, 5, Z(k), u) = FDiv(Uof(m(k)), w, C.p))
Real1 == kind = "real" =>
  LET C == WeiCurves[WNames[t]] IN
  /\ (P = <<0>> => /\ EcOn(C, C.g) /\ EcMulF(C.p, C.a, C.n, C.g) = Inf /\ ZPrime(C.p) /\ ZPrime(C.n)
               /\ ZLt(ZAbs(C.n -- C.p), Z2(ZBitLen(C.p) \div 2 + 2))
               /\ ~FSquare(Z(-1), C.p) = (C.p %% Z(4) = Z(3)))
  /\ (P # <<0>> => LET k == (C.n ++ Z(Q)) // Z(2) IN
       /\ EcMul(C, k, C.g) = EcMulDef(C.p, C.a, k, C.g)
       /\ EcMul(C, Z(Q), C.g) = EcNeg(C, EcMul(C, Z(-Q), C.g)))
RealTe1 == kind = "realte" =>
  LET C == EdCurves[ENames[t]] IN
  /\ (P = <<0>> => /\ TeOn(C, C.g) /\ TeMul(C, C.n, C.g) = TeId /\ ZPrime(C.p) /\ ZPrime(C.n)
               /\ FSquare(C.a, C.p) /\ ~FSquare(C.d, C.p))
  /\ (P # <<0>> => LET k == (C.n ++ Z(Q)) // Z(2) IN TeMul(C, k, C.g) = TeMulDef(C.p, C.a, C.d, k, C.g))
RealMt1 == kind = "realmt" =>
  LET C == MtCurves[MNames[t]]
      v == ZRootMod(MtRhs(C, C.u), C.p)
  IN /\ (P = <<0>> => v # NoZ /\ MtMul(C, C.n, <<C.u, v>>) = Inf /\ Ladder(C.p, C.A, C.bits, C.n, C.u) = Z0)
     /\ (P # <<0>> => LET k == (C.n ++ Z(Q)) // Z(3) IN
          /\ Ladder(C.p, C.A, C.bits, k, C.u) = LadderDef(C.p, C.A, C.bits, k, C.u)
          /\ Ladder(C.p, C.A, C.bits, k, C.u) = MtMul(C, k, <<C.u, v>>)[1])
Root1 == kind = "root" /\ P # <<0>> =>
  LET y == ZRootMod(Z(Q), Z(t)) IN
  IF \E i \in 0..(t - 1) : (i * i) % t = Q THEN FSq(y, Z(t)) = Z(Q) /\ FSquareDef(Z(Q), Z(t))
  ELSE y = NoZ /\ ~FSquareDef(Z(Q), Z(t))
=============================================================================
