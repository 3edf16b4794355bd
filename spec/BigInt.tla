------------------------------- MODULE BigInt ------------------------------
(***************************************************************************)
(* Integers of any size.  Mathematically a "big" is an integer and the     *)
(* operators are the integer operators; because TLC's integers are 32-bit, *)
(* bigs are kept apart from TLC integers (conversion: Z, ZInt) and TLC     *)
(* evaluates the operators through java/BigOv.java.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE PowR(_, _)
PowR(a, k) == IF k = 0 THEN 1 ELSE a * PowR(a, k - 1)
RECURSIVE BEVal(_, _)
BEVal(s, k) == IF k = 0 THEN 0 ELSE 256 * BEVal(s, k - 1) + s[k]

Z(n) == n                                  \* TLC integer -> big
ZInt(a) == a                               \* big within TLC range -> TLC integer
ZHex(s) == CHOOSE n \in Int : TRUE         \* value of the (signed) hexadecimal text s
HexZ(a) == CHOOSE s \in STRING : ZHex(s) = a  \* its minimal lower case text
ZBE(s) == BEVal(s, Len(s))                 \* big-endian value of a byte string
ZLE(s) == BEVal([i \in 1..Len(s) |-> s[Len(s) + 1 - i]], Len(s))
BEZ(a, k) == [i \in 1..k |-> (a \div PowR(256, k - i)) % 256]  \* low k bytes, big-endian
LEZ(a, k) == [i \in 1..k |-> (a \div PowR(256, i - 1)) % 256]
a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b                         \* floor
a %% b == a % b                            \* non-negative, b > 0
ZNeg(a) == -a
ZAbs(a) == IF a < 0 THEN -a ELSE a
ZQuo(a, b) == LET q == ZAbs(a) \div ZAbs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q   \* truncating
ZRem(a, b) == a - b * ZQuo(a, b)
ZLt(a, b) == a < b
ZLe(a, b) == a <= b
ZSgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
ZPow(a, k) == PowR(a, k)
Z2(k) == PowR(2, k)
ZShl(a, k) == a * PowR(2, k)
ZShr(a, k) == a \div PowR(2, k)
ZBitLen(a) == CHOOSE k \in Nat : ZAbs(a) < PowR(2, k) /\ (k = 0 \/ ZAbs(a) >= PowR(2, k - 1))
ZBit(a, k) == (a \div PowR(2, k)) % 2      \* two's complement bit
ZOdd(a) == a % 2 = 1
\* bitwise operators on two's complement representations
ZAnd(a, b) == CHOOSE c \in Int : \A k \in Nat : ZBit(c, k) = ZBit(a, k) * ZBit(b, k)
ZOr(a, b) == CHOOSE c \in Int : \A k \in Nat : (ZBit(c, k) = 0) <=> (ZBit(a, k) = 0 /\ ZBit(b, k) = 0)
ZXor(a, b) == CHOOSE c \in Int : \A k \in Nat : ZBit(c, k) = (ZBit(a, k) + ZBit(b, k)) % 2
ZPopCount(a) == CHOOSE n \in Nat : TRUE    \* number of one bits (a >= 0)
ZGcd(a, b) == IF a = 0 /\ b = 0 THEN 0
              ELSE CHOOSE g \in Nat : a % g = 0 /\ b % g = 0 /\ \A h \in Nat : (h > g) => ~(a % h = 0 /\ b % h = 0)
\* inverse of a modulo m, or 0 if there is none
ZInv(a, m) == IF \E x \in 1..(m-1) : (a * x) % m = 1 THEN CHOOSE x \in 1..(m-1) : (a * x) % m = 1 ELSE 0
ZPowMod(a, e, m) == PowR(a, e) % m         \* for e < 0: of the inverse
ZMulMod(a, b, m) == (a * b) % m
ZAddMod(a, b, m) == (a + b) % m
ZSubMod(a, b, m) == (a - b) % m
ZSqrt(a) == CHOOSE r \in Nat : r * r <= a /\ (r + 1) * (r + 1) > a
ZPrime(a) == a > 1 /\ \A d \in 2..(a - 1) : a % d # 0
ZStr(a, base) == CHOOSE s \in STRING : TRUE   \* text of a in the base, lower case digits

Z0 == Z(0)
Z1 == Z(1)
ZGt(a, b) == ZLt(b, a)
ZGe(a, b) == ZLe(b, a)
ZMax(a, b) == IF ZLt(a, b) THEN b ELSE a
ZMin(a, b) == IF ZLt(a, b) THEN a ELSE b
=============================================================================
