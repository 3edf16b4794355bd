-------------------------------- MODULE Mpi --------------------------------
(***************************************************************************)
(* Integer arithmetic and number theory over the integers, as functions.   *)
(* Nothing here knows about limbs, allocation or aliasing: operands are    *)
(* integers and results are integers.                                      *)
(***************************************************************************)
EXTENDS Words, BigInt, TLC

\* truncating and Euclidean division, rounding division (half away from zero)
EMod(n, d) == n %% ZAbs(d)
EDiv(n, d) == ZQuo(n -- EMod(n, d), d)
Away(s, m) == IF s < 0 THEN ZNeg(m) ELSE m
DivRound(n, d) == Away(ZSgn(n) * ZSgn(d), (ZAbs(n) ** Z(2) ++ ZAbs(d)) // (ZAbs(d) ** Z(2)))
MulShift(x, y, b) == LET p == x ** y IN
                     IF b = 0 THEN p ELSE Away(ZSgn(p), ZShr(ZAbs(p) ++ Z2(b - 1), b))
Quo2(x, b) == Away(ZSgn(x), ZShr(ZAbs(x), b))
Com(x) == ZNeg(x) -- Z1

\* bits of the two's complement representation
SetBit(x, k) == IF ZBit(x, k) = 1 THEN x ELSE x ++ Z2(k)
ClrBit(x, k) == IF ZBit(x, k) = 0 THEN x ELSE x -- Z2(k)
ComBit(x, k) == IF ZBit(x, k) = 0 THEN x ++ Z2(k) ELSE x -- Z2(k)
TrailingZeros(v) == ZBitLen(ZAnd(v, ZNeg(v))) - 1     \* v # 0
NoBit == -1
Scan1(x, k) == LET v == ZShr(x, k) IN IF v = Z0 THEN NoBit ELSE k + TrailingZeros(v)
Scan0(x, k) == Scan1(Com(x), k)
PopCount(x) == IF ZSgn(x) < 0 THEN NoBit ELSE ZPopCount(x)
HamDist(x, y) == IF (ZSgn(x) < 0) # (ZSgn(y) < 0) THEN NoBit ELSE ZPopCount(ZXor(x, y))
ByteLen(x) == CeilDiv(ZBitLen(x), 8)

Divides(d, n) == IF d = Z0 THEN n = Z0 ELSE EMod(n, d) = Z0
Congruent(x, y, d) == IF d = Z0 THEN x = y ELSE Divides(d, x -- y)
RECURSIVE BaseLen(_, _)
BaseLen(x, b) == IF ZLt(x, b) THEN 1 ELSE 1 + BaseLen(x // b, b)

\* k-th root truncated towards zero: binary search on [lo, hi)
RECURSIVE RootIn(_, _, _, _)
RootIn(x, k, lo, hi) ==
  IF hi = lo ++ Z1 THEN lo
  ELSE LET m == ZShr(lo ++ hi, 1) IN
       IF ZLe(ZPow(m, k), x) THEN RootIn(x, k, m, hi) ELSE RootIn(x, k, lo, m)
Root(x, k) == IF x = Z0 THEN Z0
              ELSE Away(ZSgn(x), RootIn(ZAbs(x), k, Z0, Z2(ZBitLen(x) \div k + 1)))
IsSquare(x) == ZSgn(x) >= 0 /\ LET s == ZSqrt(x) IN s ** s = x
IsPower(x) == \/ ZLe(ZAbs(x), Z1)
              \/ \E k \in 2..ZBitLen(x) : (ZSgn(x) > 0 \/ k % 2 = 1) /\ ZPow(Root(x, k), k) = x

Lcm(x, y) == IF x = Z0 \/ y = Z0 THEN Z0 ELSE ZAbs(x ** y) // ZGcd(x, y)

\* Kronecker symbol (a/n), by its multiplicative definition: (a/-1), (a/2) and
\* the law of quadratic reciprocity for the odd positive part
Mod8(a) == ZInt(a %% Z(8))
Two(a) == IF ~ZOdd(a) THEN 0 ELSE IF Mod8(a) \in {1, 7} THEN 1 ELSE -1
RECURSIVE JacobiOdd(_, _)
JacobiOdd(a, n) ==                     \* n odd and positive
  LET x == a %% n IN
  IF n = Z1 THEN 1
  ELSE IF x = Z0 THEN 0
  ELSE LET k == TrailingZeros(x)
           o == ZShr(x, k)
           t == IF k % 2 = 1 THEN Two(n) ELSE 1
           f == IF Mod8(o) % 4 = 3 /\ Mod8(n) % 4 = 3 THEN -1 ELSE 1
       IN t * f * JacobiOdd(n, o)
Kronecker(a, n) ==
  IF n = Z0 THEN (IF ZAbs(a) = Z1 THEN 1 ELSE 0)
  ELSE LET k == TrailingZeros(n)
           u == IF ZSgn(n) < 0 /\ ZSgn(a) < 0 THEN -1 ELSE 1
           t == IF k = 0 THEN 1 ELSE IF ~ZOdd(a) THEN 0 ELSE IF k % 2 = 1 THEN Two(a) ELSE 1
       IN u * t * JacobiOdd(a, ZShr(ZAbs(n), k))

PowM(x, y, m) == ZPowMod(x, y, ZAbs(m))
Invertible(x, m) == ZGt(ZAbs(m), Z1) /\ ZGcd(x, m) = Z1
RECURSIVE RemCount(_, _)
RemCount(x, d) == IF EMod(x, d) # Z0 THEN 0 ELSE 1 + RemCount(ZQuo(x, d), d)
Remove(x, y) == IF x = Z0 \/ ZLe(ZAbs(y), Z1) THEN 0 ELSE RemCount(x, y)

RECURSIVE MFac(_, _)
MFac(n, m) == IF n <= 0 THEN Z1 ELSE Z(n) ** MFac(n - m, m)
RECURSIVE Primorial(_)
Primorial(n) == IF n < 2 THEN Z1 ELSE (IF ZPrime(Z(n)) THEN Z(n) ELSE Z1) ** Primorial(n - 1)
\* binomial coefficient: n (n-1) ... (n-k+1) / k!
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN Z1 ELSE n ** Falling(n -- Z1, k - 1)
Bin(n, k) == ZQuo(Falling(n, k), MFac(k, 1))
\* Fibonacci pair <<F(n), F(n-1)>> and Lucas pair by the recurrence
RECURSIVE LinRec(_, _, _)
LinRec(a, b, n) == IF n = 0 THEN <<a, b>> ELSE LET p == LinRec(a, b, n - 1) IN <<p[1] ++ p[2], p[1]>>
Fib2(n) == LinRec(Z0, Z1, n)
Luc2(n) == LinRec(Z(2), Z(-1), n)

\* strong probable prime to base b
OddPart(m) == ZShr(m, TrailingZeros(m))
StrongProbable(n, b) ==
  LET m == n -- Z1 r == TrailingZeros(m) d == OddPart(m) IN
  \/ ZPowMod(b, d, n) = Z1
  \/ \E i \in 0..(r - 1) : ZPowMod(b, ZShl(d, i), n) = m
\* extra strong Lucas probable prime (Baillie's parameters: Q = 1, least P >= 3 with (P^2-4 / n) = -1)
RECURSIVE LucasP(_, _)
LucasP(n, p) ==
  LET j == JacobiOdd(Z(p * p - 4), n) IN IF j = 1 THEN LucasP(n, p + 1) ELSE <<p, j>>
RECURSIVE LucasV(_, _, _)
\* <<V_k, V_(k+1)>> for the parameters P = p, Q = 1 modulo n
LucasV(p, k, n) ==
  IF k = Z0 THEN <<Z(2), p>>
  ELSE LET h == LucasV(p, ZShr(k, 1), n)
           m == (h[1] ** h[2] -- p) %% n
       IN IF ZOdd(k) THEN <<m, (h[2] ** h[2] -- Z(2)) %% n>> ELSE <<(h[1] ** h[1] -- Z(2)) %% n, m>>
RECURSIVE VZero(_, _, _)
VZero(v, t, n) == IF t <= 0 THEN FALSE ELSE v = Z0 \/ VZero((v ** v -- Z(2)) %% n, t - 1, n)
ExtraStrongLucas(n, limit) ==
  IF ZLe(n, Z1) THEN FALSE
  ELSE IF ~ZOdd(n) THEN n = Z(2)
  ELSE IF IsSquare(n) THEN FALSE
  ELSE LET pj == LucasP(n, 3) p == pj[1] IN
    IF p > limit THEN FALSE
    ELSE IF pj[2] = 0 THEN n = Z(p + 2)
    ELSE LET m == n ++ Z1
             r == TrailingZeros(m)
             s == ZShr(m, r)
             v == LucasV(Z(p), s, n)
         IN \/ (v[1] = Z(2) \/ v[1] = n -- Z(2)) /\ (v[1] ** Z(p) -- v[2] ** Z(2)) %% n = Z0
            \/ VZero(v[1], r - 1, n)
RECURSIVE NextPrime(_)
NextPrime(x) == LET y == IF ZLt(x, Z(2)) THEN Z(2) ELSE x IN IF ZPrime(y) THEN y ELSE NextPrime(y ++ Z1)
\* first prime among the odd numbers of x .. x+m, or -1
RECURSIVE FindPrime(_, _)
FindPrime(x, last) == IF ZGt(x, last) THEN Z(-1) ELSE IF ZOdd(x) /\ ZPrime(x) THEN x ELSE FindPrime(x ++ Z1, last)

\* Bitcoin's compact form
FromCompact(c) ==
  LET e == ZInt(ZShr(c, 24) %% Z(256))
      m == c %% Z2(23)
      v == IF e <= 3 THEN ZShr(m, 8 * (3 - e)) ELSE ZShl(m, 8 * (e - 3))
  IN IF ZBit(c, 23) = 1 THEN ZNeg(v) ELSE v
ToCompact(x) ==
  IF x = Z0 THEN Z0
  ELSE LET n == ByteLen(x)
           m0 == IF n <= 3 THEN ZShl(ZAbs(x), 8 * (3 - n)) ELSE ZShr(ZAbs(x), 8 * (n - 3))
           big == ZBit(m0, 23) = 1
           m == IF big THEN ZShr(m0, 8) ELSE m0
           e == IF big THEN n + 1 ELSE n
       IN ZShl(Z(e % 256), 24) ++ m ++ (IF ZSgn(x) < 0 THEN Z2(23) ELSE Z0)

\* digits: texts are byte strings
Space(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c, b) == IF c \in 48..57 THEN c - 48
               ELSE IF c \in 65..90 THEN c - 55
               ELSE IF c \in 97..122 THEN (IF b <= 36 THEN c - 87 ELSE c - 61)
               ELSE 99
None == <<>>
Strip(s) == SelectSeq(s, LAMBDA c : ~Space(c))
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Space(s[1]) THEN LStrip(Drop(s, 1)) ELSE s
Value(s, b) == LET d == Strip(s) IN
  IF b < 2 \/ b > 62 \/ \E i \in 1..Len(d) : Digit(d[i], b) >= b THEN None
  ELSE <<Fold(LAMBDA a, c : a ** Z(b) ++ Z(Digit(c, b)), Z0, d)>>
UpTo0(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN
            IF z = {} THEN s ELSE Take(s, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
FromStr(s0, b0) ==
  LET s1 == LStrip(UpTo0(s0))
      neg == s1 # <<>> /\ s1[1] = 45
      s2 == IF s1 # <<>> /\ s1[1] \in {43, 45} THEN Drop(s1, 1) ELSE s1
      c2 == IF Len(s2) >= 2 THEN s2[2] ELSE 0
      pre == IF b0 # 0 THEN <<b0, 0>>
             ELSE IF s2 = <<>> \/ s2[1] # 48 THEN <<10, 0>>
             ELSE IF c2 \in {98, 66} THEN <<2, 2>>
             ELSE IF c2 \in {111, 79} THEN <<8, 2>>
             ELSE IF c2 \in {120, 88} THEN <<16, 2>>
             ELSE <<8, 0>>
      v == Value(Drop(s2, pre[2]), pre[1])
  IN IF v = None THEN None ELSE <<IF neg THEN ZNeg(v[1]) ELSE v[1]>>
DigitChar(d, b) == IF d < 10 THEN 48 + d
                   ELSE IF b <= 36 THEN 87 + d
                   ELSE IF d < 36 THEN 55 + d ELSE 61 + d
RECURSIVE DigitsOf(_, _)
DigitsOf(x, b) ==
  LET d == DigitChar(ZInt(x %% Z(b)), b) q == x // Z(b) IN IF q = Z0 THEN <<d>> ELSE DigitsOf(q, b) \o <<d>>
ToStr(x, b) == (IF ZSgn(x) < 0 THEN <<45>> ELSE <<>>) \o DigitsOf(ZAbs(x), b)
=============================================================================
