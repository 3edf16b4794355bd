-------------------------------- MODULE Asn1 -------------------------------
(***************************************************************************)
(* The subset of DER in which keys and signatures are written (a sequence  *)
(* of non-negative integers), and the plain format of length-prefixed      *)
(* integers.  Reading yields [ok, v, i]: the value and the next position.  *)
(***************************************************************************)
EXTENDS Words, BigInt

Bad == [ok |-> FALSE, v |-> 0, i |-> 0]
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
\* definite form, shortest possible; nothing here is as long as 2^24 bytes
ReadSize(s, i) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] < 128 THEN Good(s[i], i + 1)
  ELSE LET n == s[i] - 128 IN
    IF n = 0 \/ n > 3 \/ i + n > Len(s) THEN Bad
    ELSE IF s[i + 1] = 0 THEN Bad
    ELSE LET v == Fold(LAMBDA x, b : 256 * x + b, 0, SubSeq(s, i + 1, i + n))
         IN IF v < 128 THEN Bad ELSE Good(v, i + n + 1)
MaxInt == 2048    \* bytes of magnitude
ReadInt(s, i) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] # 2 THEN Bad
  ELSE LET z == ReadSize(s, i + 1) IN
    IF ~z.ok THEN Bad
    ELSE IF z.v = 0 \/ z.i + z.v - 1 > Len(s) THEN Bad
    ELSE IF s[z.i] >= 128 THEN Bad
    ELSE IF z.v > 1 /\ s[z.i] = 0 /\ s[z.i + 1] < 128 THEN Bad
    ELSE IF z.v - (IF s[z.i] = 0 THEN 1 ELSE 0) > MaxInt THEN Bad
    ELSE Good(ZBE(SubSeq(s, z.i, z.i + z.v - 1)), z.i + z.v)
\* exactly k integers from position i to the end
ReadInts(s, i, k) ==
  LET f(x, j) == IF ~x.ok THEN x
                 ELSE LET y == ReadInt(s, x.i) IN IF y.ok THEN Good(Append(x.v, y.v), y.i) ELSE Bad
      z == Iter(f, Good(<<>>, i), k)
  IN IF z.ok /\ z.i = Len(s) + 1 THEN z ELSE Bad
\* the contents start here, or 0 if s is not one whole sequence
SeqStart(s) ==
  IF Len(s) = 0 THEN 0
  ELSE IF s[1] # 48 THEN 0
  ELSE LET z == ReadSize(s, 2) IN IF z.ok /\ z.i + z.v - 1 = Len(s) THEN z.i ELSE 0
ReadSeq(s, k) == LET b == SeqStart(s) IN IF b = 0 THEN Bad ELSE ReadInts(s, b, k)
\* the same after a version number (zero)
ReadVersioned(s, k) ==
  LET b == SeqStart(s) IN
  IF b = 0 \/ b + 2 > Len(s) THEN Bad
  ELSE IF SubSeq(s, b, b + 2) # <<2, 1, 0>> THEN Bad ELSE ReadInts(s, b + 3, k)

ByteLen(z) == CeilDiv(ZBitLen(z), 8)
EncSize(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
EncInt(z) ==
  LET b == IF z = Z0 THEN <<0>> ELSE BEZ(z, ByteLen(z))
      c == IF b[1] >= 128 THEN <<0>> \o b ELSE b
  IN <<2>> \o EncSize(Len(c)) \o c
EncBody(c) == <<48>> \o EncSize(Len(c)) \o c
EncSeq(v) == EncBody(Fold(LAMBDA x, z : x \o EncInt(z), <<>>, v))
EncVersioned(v) == EncBody(Fold(LAMBDA x, z : x \o EncInt(z), <<2, 1, 0>>, v))

\* plain format: two bytes of length, then the magnitude; whatever follows the last integer is ignored
PlainInt(s, i) ==
  IF i + 1 > Len(s) THEN Bad
  ELSE LET n == 256 * s[i] + s[i + 1] IN
    IF i + 1 + n > Len(s) THEN Bad ELSE Good(ZBE(SubSeq(s, i + 2, i + 1 + n)), i + 2 + n)
ReadPlain(s, k) ==
  LET f(x, j) == IF ~x.ok THEN x
                 ELSE LET y == PlainInt(s, x.i) IN IF y.ok THEN Good(Append(x.v, y.v), y.i) ELSE Bad
  IN Iter(f, Good(<<>>, 1), k)
EncPlain(v) == Fold(LAMBDA x, z : x \o <<ByteLen(z) \div 256, ByteLen(z) % 256>> \o BEZ(z, ByteLen(z)), <<>>, v)
=============================================================================
