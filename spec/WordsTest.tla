----------------------------- MODULE WordsTest -----------------------------
(* The accelerated word operators agree with their bitwise definitions.    *)
EXTENDS Words
VARIABLES a, b, n
Vals == {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 305419896, 2147483647, -1, -2, -2147483647, -2147483647 - 1,
         -1985229329, 1431655765, -1431655766}
Init == a \in Vals /\ b \in Vals /\ n \in {0, 1, 7, 8, 13, 16, 24, 31}
Next == UNCHANGED <<a, b, n>>
Agree == /\ WXor(a, b) = WXorDef(a, b)
         /\ WAnd(a, b) = WAndDef(a, b)
         /\ WOr(a, b) = WOrDef(a, b)
         /\ WNot(a) = WNotDef(a)
         /\ WShl(a, n) = WShlDef(a, n)
         /\ WShr(a, n) = WShrDef(a, n)
         /\ WRotl(a, n) = WRotlDef(a, n)
         /\ WRotr(a, n) = WRotlDef(a, 32 - n)
         /\ WAdd(a, b) = WAddDef(a, b)
         /\ WSub(a, b) = WSubDef(a, b)
         /\ (n = 0 => WMul(a, b) = WMulDef(a, b))
         /\ LAdd(<<a, b>>, <<b, n>>) = LAddDef(<<a, b>>, <<b, n>>)
         /\ LRotl(<<a, b>>, n) = IF n = 0 THEN <<a, b>> ELSE
               <<WOrDef(WShlDef(a, n), WShrDef(b, 32 - n)), WOrDef(WShlDef(b, n), WShrDef(a, 32 - n))>>
         /\ LRotl(<<a, b>>, 32 + n) = LRotl(<<b, a>>, n)
         /\ (n = 31 /\ a > 0 => LMul(<<a, b>>, <<b, a>>) = LMulDef(<<a, b>>, <<b, a>>))
         /\ W32BE(<<7>> \o BE32(a), 1) = a
         /\ W32LE(<<7>> \o LE32(a), 1) = a
=============================================================================
