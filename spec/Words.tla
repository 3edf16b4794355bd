------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words and byte strings.                                         *)
(*                                                                         *)
(* A byte string is a tuple over 0..255.  A 32-bit word is the TLC integer *)
(* with the same two's complement bits (TLC integers are 32-bit signed).   *)
(* A 64-bit word is a pair <<high word, low word>>.                        *)
(*                                                                         *)
(* The operators below are defined bit by bit; TLC evaluates them through  *)
(* java/VtOv.java (same meaning, machine speed).  WordsTest.tla checks the *)
(* accelerated operators against these definitions.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL MinInt == -2147483647 - 1
LOCAL P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576,
        2097152,4194304,8388608,16777216,33554432,67108864,134217728,268435456,536870912,1073741824>>

\* bit i (0..31) of a word
Bit(w, i) == IF i = 31 THEN (IF w < 0 THEN 1 ELSE 0)
             ELSE ((IF w < 0 THEN (w + 2147483647) + 1 ELSE w) \div P2[i+1]) % 2
\* the word with bits b[0..31]
RECURSIVE SumBits(_, _)
SumBits(b, i) == IF i = 31 THEN 0 ELSE b[i] * P2[i+1] + SumBits(b, i+1)
OfBits(b) == SumBits(b, 0) + (IF b[31] = 1 THEN MinInt ELSE 0)

WXorDef(a, b) == OfBits([i \in 0..31 |-> (Bit(a,i) + Bit(b,i)) % 2])
WAndDef(a, b) == OfBits([i \in 0..31 |-> Bit(a,i) * Bit(b,i)])
WOrDef(a, b)  == OfBits([i \in 0..31 |-> IF Bit(a,i) + Bit(b,i) > 0 THEN 1 ELSE 0])
WNotDef(a)    == OfBits([i \in 0..31 |-> 1 - Bit(a,i)])
WShlDef(a, n) == OfBits([i \in 0..31 |-> IF i < n THEN 0 ELSE Bit(a, i-n)])
WShrDef(a, n) == OfBits([i \in 0..31 |-> IF i + n > 31 THEN 0 ELSE Bit(a, i+n)])
WRotlDef(a, n) == OfBits([i \in 0..31 |-> Bit(a, (i + 32 - (n % 32)) % 32)])
WAddDef(a, b) == LET RECURSIVE C(_)
                     C(i) == IF i = 0 THEN 0 ELSE (Bit(a,i-1) + Bit(b,i-1) + C(i-1)) \div 2
                 IN OfBits([i \in 0..31 |-> (Bit(a,i) + Bit(b,i) + C(i)) % 2])
WSubDef(a, b) == WAddDef(WAddDef(a, WNotDef(b)), 1)
WMulDef(a, b) == LET RECURSIVE M(_)
                     M(i) == IF i = 32 THEN 0
                             ELSE IF Bit(b,i) = 1 THEN WAddDef(WShlDef(a,i), M(i+1)) ELSE M(i+1)
                 IN M(0)

WXor(a, b) == WXorDef(a, b)
WAnd(a, b) == WAndDef(a, b)
WOr(a, b)  == WOrDef(a, b)
WNot(a)    == WNotDef(a)
WShl(a, n) == WShlDef(a, n)
WShr(a, n) == WShrDef(a, n)
WRotl(a, n) == WRotlDef(a, n)
WRotr(a, n) == WRotlDef(a, 32 - n)
WAdd(a, b) == WAddDef(a, b)
WAdd3(a, b, c) == WAdd(WAdd(a, b), c)
WAdd4(a, b, c, d) == WAdd(WAdd3(a, b, c), d)
WAdd5(a, b, c, d, e) == WAdd(WAdd4(a, b, c, d), e)
WSub(a, b) == WSubDef(a, b)
WMul(a, b) == WMulDef(a, b)
WXor3(a, b, c) == WXor(WXor(a, b), c)
\* byte k (0 = least significant) of a word
WByte(a, k) == WAnd(WShr(a, 8 * k), 255)

------------------------------------------------------------------------------
\* 64-bit words
LXor(a, b) == <<WXor(a[1], b[1]), WXor(a[2], b[2])>>
LXor3(a, b, c) == LXor(LXor(a, b), c)
LAnd(a, b) == <<WAnd(a[1], b[1]), WAnd(a[2], b[2])>>
LOr(a, b)  == <<WOr(a[1], b[1]), WOr(a[2], b[2])>>
LNot(a)    == <<WNot(a[1]), WNot(a[2])>>
LAndNot(a, b) == LAnd(LNot(a), b)           \* (~a) & b
LShl(a, n) == IF n = 0 THEN a
              ELSE IF n >= 32 THEN <<WShl(a[2], n - 32), 0>>
              ELSE <<WOr(WShl(a[1], n), WShr(a[2], 32 - n)), WShl(a[2], n)>>
LShr(a, n) == IF n = 0 THEN a
              ELSE IF n >= 32 THEN <<0, WShr(a[1], n - 32)>>
              ELSE <<WShr(a[1], n), WOr(WShr(a[2], n), WShl(a[1], 32 - n))>>
LRotl(a, n) == IF n % 64 = 0 THEN a ELSE LOr(LShl(a, n % 64), LShr(a, 64 - (n % 64)))
LRotr(a, n) == LRotl(a, 64 - (n % 64))
LOCAL CarryOut(a, b) == LET RECURSIVE C(_)
                            C(i) == IF i = 0 THEN 0 ELSE (Bit(a,i-1) + Bit(b,i-1) + C(i-1)) \div 2
                        IN C(32)
LAddDef(a, b) == <<WAdd(WAdd(a[1], b[1]), CarryOut(a[2], b[2])), WAdd(a[2], b[2])>>
LAdd(a, b) == LAddDef(a, b)
LAdd3(a, b, c) == LAdd(LAdd(a, b), c)
LAdd4(a, b, c, d) == LAdd(LAdd3(a, b, c), d)
LAdd5(a, b, c, d, e) == LAdd(LAdd4(a, b, c, d), e)
LMulDef(a, b) == LET RECURSIVE M(_)
                     M(i) == IF i = 64 THEN <<0,0>>
                             ELSE IF Bit(IF i < 32 THEN b[2] ELSE b[1], i % 32) = 1
                                  THEN LAddDef(LShl(a,i), M(i+1)) ELSE M(i+1)
                 IN M(0)
LMul(a, b) == LMulDef(a, b)
LByte(a, k) == IF k < 4 THEN WByte(a[2], k) ELSE WByte(a[1], k - 4)
L0 == <<0, 0>>

------------------------------------------------------------------------------
\* Words in byte strings; o is the 0-based offset of the first byte
W32BE(s, o) == WOr(WOr(WShl(s[o+1], 24), WShl(s[o+2], 16)), WOr(WShl(s[o+3], 8), s[o+4]))
W32LE(s, o) == WOr(WOr(WShl(s[o+4], 24), WShl(s[o+3], 16)), WOr(WShl(s[o+2], 8), s[o+1]))
BE32(w) == <<WByte(w,3), WByte(w,2), WByte(w,1), WByte(w,0)>>
LE32(w) == <<WByte(w,0), WByte(w,1), WByte(w,2), WByte(w,3)>>
L64BE(s, o) == <<W32BE(s, o), W32BE(s, o+4)>>
L64LE(s, o) == <<W32LE(s, o+4), W32LE(s, o)>>
BE64(a) == BE32(a[1]) \o BE32(a[2])
LE64(a) == LE32(a[2]) \o LE32(a[1])

\* concatenation of f(x) over a sequence x of words
Cat32BE(ws) == [i \in 1..(4*Len(ws)) |-> WByte(ws[(i-1) \div 4 + 1], 3 - ((i-1) % 4))]
Cat32LE(ws) == [i \in 1..(4*Len(ws)) |-> WByte(ws[(i-1) \div 4 + 1], (i-1) % 4)]
Cat64BE(ws) == [i \in 1..(8*Len(ws)) |-> LByte(ws[(i-1) \div 8 + 1], 7 - ((i-1) % 8))]
Cat64LE(ws) == [i \in 1..(8*Len(ws)) |-> LByte(ws[(i-1) \div 8 + 1], (i-1) % 8)]
Words32BE(s) == [i \in 1..(Len(s) \div 4) |-> W32BE(s, 4*(i-1))]
Words32LE(s) == [i \in 1..(Len(s) \div 4) |-> W32LE(s, 4*(i-1))]
Words64BE(s) == [i \in 1..(Len(s) \div 8) |-> L64BE(s, 8*(i-1))]
Words64LE(s) == [i \in 1..(Len(s) \div 8) |-> L64LE(s, 8*(i-1))]

------------------------------------------------------------------------------
\* Byte strings
BXor1(a, b) == WXor(a, b)
BXor(a, b) == [i \in 1..Len(a) |-> WXor(a[i], b[i])]      \* Len(a) <= Len(b)
Tup(f) == f             \* same value; TLC evaluates all entries once instead of on each access
Zeros(n) == [i \in 1..n |-> 0]
Rep(b, n) == [i \in 1..n |-> b]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* a non-negative integer below 2^31 as k bytes
IntBE(n, k) == [i \in 1..k |-> IF k - i > 3 THEN 0 ELSE WByte(n, k - i)]
IntLE(n, k) == [i \in 1..k |-> IF i > 4 THEN 0 ELSE WByte(n, i - 1)]
\* 8 * n as a 64-bit word (message lengths in bits)
BitLen64(n) == LShl(<<0, n>>, 3)

\* hexadecimal text (TLC strings) <-> byte strings
LOCAL HexDigits == "0123456789abcdef"
LOCAL HexVal(c) == CHOOSE v \in 0..15 : SubSeq(HexDigits, v+1, v+1) = c
Hex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(SubSeq(s, 2*i-1, 2*i-1)) + HexVal(SubSeq(s, 2*i, 2*i))]
RECURSIVE ToHexR(_, _)
ToHexR(b, i) == IF i > Len(b) THEN ""
                ELSE SubSeq(HexDigits, b[i] \div 16 + 1, b[i] \div 16 + 1)
                     \o SubSeq(HexDigits, (b[i] % 16) + 1, (b[i] % 16) + 1) \o ToHexR(b, i+1)
ToHex(b) == ToHexR(b, 1)
\* text -> byte string (ASCII) and back
Ascii(s) == CHOOSE b \in Seq(0..127) : Len(b) = Len(s)  \* evaluated by the override
\* tables written as hexadecimal text
HexWords32(s) == Words32BE(Hex(s))
HexWords64(s) == Words64BE(Hex(s))

\* Fold(op, base, s): op(...op(op(base, s[1]), s[2])..., s[n])
Fold(op(_, _), base, s) ==
  LET RECURSIVE F(_, _)
      F(acc, i) == IF i > Len(s) THEN acc ELSE F(op(acc, s[i]), i + 1)
  IN F(base, 1)
\* Iter(op, base, n): op(...op(op(base, 0), 1)..., n-1)
Iter(op(_, _), base, n) ==
  LET RECURSIVE F(_, _)
      F(acc, i) == IF i = n THEN acc ELSE F(op(acc, i), i + 1)
  IN F(base, 0)
\* consecutive blocks of n bytes; Blocks(s, n) ignores a trailing partial block
Blocks(s, n) == [i \in 1..(Len(s) \div n) |-> SubSeq(s, (i-1)*n + 1, i*n)]
CeilDiv(a, b) == (a + b - 1) \div b

\* value of a decimal numeral
DigitOf(c) == CHOOSE d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c
RECURSIVE SNat(_)
SNat(s) == IF Len(s) = 0 THEN 0 ELSE 10 * SNat(SubSeq(s, 1, Len(s) - 1)) + DigitOf(SubSeq(s, Len(s), Len(s)))
SInt(s) == IF SubSeq(s, 1, 1) = "-" THEN 0 - SNat(SubSeq(s, 2, Len(s))) ELSE SNat(s)
=============================================================================
