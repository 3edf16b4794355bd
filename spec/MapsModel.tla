----------------------------- MODULE MapsModel -----------------------------
(***************************************************************************)
(* The maps on all field elements and their preimages for all points of    *)
(* many small curves that meet the conditions of the maps.  Maps: the      *)
(* image is a point, negated with the field element.  Inverse: XxxPre      *)
(* gives all preimages.  Usual: at most four (two) of them are not hard.   *)
(***************************************************************************)
EXTENDS Maps
\* p, a, b, z
Ws == <<<<11, 3, 4, 6>>,
    <<11, 7, 5, 6>>,
    <<13, 2, 3, 7>>,
    <<13, 3, 7, 2>>,
    <<17, 1, 8, 11>>,
    <<17, 1, 9, 6>>,
    <<19, 1, 1, 2>>,
    <<19, 1, 6, 10>>,
    <<23, 1, 3, 14>>,
    <<23, 1, 8, 11>>,
    <<29, 1, 3, 14>>,
    <<29, 1, 11, 18>>,
    <<31, 1, 6, 21>>,
    <<31, 1, 9, 6>>,
    <<37, 1, 4, 20>>,
    <<37, 1, 9, 6>>,
    <<43, 1, 5, 37>>,
    <<43, 1, 8, 22>>>>
\* p, b, z, c
Ss == <<<<13, 2, 2, 12>>,
    <<13, 3, 3, 5>>,
    <<13, 6, 2, 12>>,
    <<13, 8, 1, 6>>,
    <<13, 8, 1, 7>>,
    <<13, 8, 3, 8>>,
    <<13, 9, 1, 7>>,
    <<13, 11, 3, 5>>,
    <<19, 1, 2, 8>>,
    <<19, 1, 3, 7>>,
    <<19, 8, 1, 15>>,
    <<19, 12, 3, 12>>,
    <<31, 4, 1, 20>>,
    <<31, 6, 2, 9>>,
    <<31, 8, 2, 22>>,
    <<31, 23, 3, 29>>,
    <<37, 1, 3, 26>>,
    <<37, 6, 3, 11>>,
    <<37, 10, 1, 16>>,
    <<37, 11, 1, 21>>,
    <<37, 13, 3, 11>>,
    <<37, 26, 2, 32>>,
    <<37, 32, 2, 5>>,
    <<37, 35, 3, 11>>,
    <<43, 1, 2, 26>>,
    <<43, 3, 2, 26>>,
    <<43, 5, 1, 13>>,
    <<43, 11, 3, 39>>,
    <<43, 12, 1, 13>>,
    <<43, 14, 3, 39>>>>
\* p, A, B, z
Es == <<<<17, 14, 3, 10>>,
    <<17, 15, 12, 12>>,
    <<19, 5, 9, 2>>,
    <<23, 1, 8, 17>>,
    <<23, 2, 14, 11>>,
    <<23, 6, 18, 10>>,
    <<23, 10, 20, 5>>,
    <<23, 13, 20, 5>>,
    <<29, 1, 10, 26>>,
    <<29, 2, 19, 17>>,
    <<29, 8, 5, 11>>,
    <<29, 19, 17, 18>>,
    <<29, 22, 23, 26>>,
    <<31, 4, 29, 12>>,
    <<31, 8, 18, 13>>,
    <<31, 11, 23, 15>>,
    <<31, 29, 10, 29>>,
    <<31, 30, 16, 13>>,
    <<37, 1, 15, 29>>,
    <<37, 1, 34, 15>>,
    <<37, 2, 15, 31>>,
    <<37, 2, 36, 24>>,
    <<37, 3, 1, 14>>,
    <<37, 4, 6, 8>>,
    <<37, 4, 21, 17>>,
    <<37, 9, 33, 19>>,
    <<37, 14, 10, 35>>,
    <<37, 17, 7, 29>>,
    <<37, 27, 27, 6>>,
    <<37, 32, 3, 13>>>>
\* p, a, d, z, c, inverted
Ds == <<<<13, 12, 8, 5, 9, 1>>,
    <<29, 28, 8, 15, 11, 1>>,
    <<19, 1, 3, 3, 10, 0>>,
    <<29, 1, 15, 17, 4, 1>>,
    <<29, 28, 15, 2, 6, 1>>,
    <<29, 1, 19, 8, 5, 1>>,
    <<29, 1, 8, 15, 14, 0>>,
    <<31, 1, 3, 6, 22, 0>>,
    <<23, 1, 11, 19, 18, 1>>,
    <<29, 1, 12, 11, 11, 1>>,
    <<29, 28, 2, 3, 20, 1>>,
    <<31, 1, 24, 6, 19, 1>>,
    <<29, 1, 11, 14, 3, 0>>,
    <<23, 1, 20, 7, 9, 1>>,
    <<23, 1, 10, 11, 22, 0>>,
    <<19, 1, 14, 2, 2, 1>>,
    <<31, 1, 6, 13, 21, 1>>,
    <<17, 16, 12, 3, 10, 1>>,
    <<29, 28, 17, 12, 22, 1>>,
    <<31, 1, 3, 13, 1, 1>>,
    <<19, 1, 13, 12, 12, 0>>,
    <<17, 1, 5, 7, 4, 1>>,
    <<29, 1, 27, 11, 2, 0>>,
    <<23, 1, 10, 14, 10, 0>>>>
W(i) == [p |-> Z(Ws[i][1]), a |-> Z(Ws[i][2]), b |-> Z(Ws[i][3]), z |-> Z(Ws[i][4])]
S(i) == [p |-> Z(Ss[i][1]), a |-> Z0, b |-> Z(Ss[i][2]), z |-> Z(Ss[i][3]), c |-> Z(Ss[i][4])]
E(i) == [p |-> Z(Es[i][1]), A |-> Z(Es[i][2]), B |-> Z(Es[i][3]), z |-> Z(Es[i][4])]
D(i) == [p |-> Z(Ds[i][1]), a |-> Z(Ds[i][2]), d |-> Z(Ds[i][3])]
DE(i) == EdMont(D(i), Z(Ds[i][5]), Ds[i][6] = 1, Z(Ds[i][4]))
Field(k, i) == IF k = "w" THEN Ws[i][1] ELSE IF k = "s" THEN Ss[i][1] ELSE IF k = "e" THEN Es[i][1] ELSE Ds[i][1]
Map(k, i, u) == IF k = "w" THEN Sswu(W(i), Z(u)) ELSE IF k = "s" THEN Svdw(S(i), Z(u)) ELSE IF k = "e" THEN Ell2(E(i), Z(u)) ELSE EdMap(DE(i), Z(u))
On(k, i, P) == IF k = "w" THEN EcOn(W(i), P) ELSE IF k = "s" THEN EcOn(S(i), P) ELSE IF k = "e" THEN FSq(P[2], E(i).p) = ERhs(E(i), P[1]) ELSE TeOn(D(i), P)
Pre(k, i, P) == IF k = "w" THEN SswuPre(W(i), P) ELSE IF k = "s" THEN SvdwPre(S(i), P) ELSE IF k = "e" THEN Ell2Pre(E(i), P) ELSE EdPre(DE(i), P)
Hard(k, i) == IF k = "w" THEN SswuHard(W(i)) ELSE IF k = "s" THEN SvdwHard(S(i)) ELSE IF k = "e" THEN Ell2Hard(E(i)) ELSE Ell2Hard(DE(i))
Neg(k, i, P) == IF k = "d" THEN TeNeg(D(i), P) ELSE <<P[1], FNeg(P[2], Z(Field(k, i)))>>
F(k, i) == 0..(Field(k, i) - 1)
VARIABLES k, i, u, P
vars == <<k, i, u, P>>
Init == /\ k \in {"w", "s", "e", "d"} /\ u = -1 /\ P = <<>>
        /\ i \in 1..(IF k = "w" THEN Len(Ws) ELSE IF k = "s" THEN Len(Ss) ELSE IF k = "e" THEN Len(Es) ELSE Len(Ds))
Next == /\ u = -1 /\ P = <<>> /\ UNCHANGED <<k, i>>
        /\ \/ u' \in F(k, i) /\ P' = P
           \/ u' = u /\ \E x \in F(k, i), y \in F(k, i) : On(k, i, <<Z(x), Z(y)>>) /\ P' = <<x, y>>
Maps == u >= 0 => /\ On(k, i, Map(k, i, u))
                  /\ u > 0 => Map(k, i, Field(k, i) - u) = Neg(k, i, Map(k, i, u))
Inverse == P # <<>> => LET Q == <<Z(P[1]), Z(P[2])>>
                           S0 == Pre(k, i, Q)
                       IN /\ {ZInt(x) : x \in S0} = {x \in F(k, i) : Map(k, i, x) = Q}
                          /\ Cardinality(S0 \ Hard(k, i)) <= (IF k \in {"w", "s"} THEN 4 ELSE 2)
=============================================================================
