---------------------------- MODULE EncodingTrace --------------------------
\* Codec calls; texts and bytes in hexadecimal.  A rejected text gives "-".
EXTENDS Encoding, TraceKit
Sub(s, p, c) == [s EXCEPT ![p + 1] = c]
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
\* encoding: text, its length, the advertised length
EncR(v, b, pad) == LET s == EncV(v, b, pad) IN <<ToHex(s), N(Len(s)), N(Len(s))>>
\* decoding: bytes, verdict of the test
DecR(v, s, pad) == LET b == DecV(v, s, pad) IN <<Txt(b), B01(b # None)>>
PadOf(v, p) == IF v \in {"32", "32hex"} THEN p = 1 ELSE v = "64"
Bech(x) == IF x = None THEN <<"-">> ELSE <<ToHex(x) \o ".">>
Exp(s, e) ==
  LET a == e.a IN
  CASE e.op = "ec_enc" -> EncR(a[1], Hex(a[3]), PadOf(a[1], a[2]))
    [] e.op = "ec_dec" -> DecR(a[1], Hex(a[3]), PadOf(a[1], a[2]))
    [] e.op = "ec_scan" -> LET t == Hex(a[3]) IN
         Tup([c \in 1..256 |-> Txt(DecV(a[1], Sub(t, a[4], c - 1), PadOf(a[1], a[2])))])
    [] e.op = "b3_ser" -> Bech(B32Ser(CStr(Hex(a[1])), Hex(a[2]), Wd(a[3])))
    [] e.op = "b3_des" -> LET x == B32Des(CStr(Hex(a[1])), Wd(a[2])) IN
         IF x = None THEN <<"-", "0">> ELSE <<ToHex(x[1]) \o ".", ToHex(x[2]) \o ".", "1">>
    [] e.op = "b3_enc" -> Bech(B32Enc(CStr(Hex(a[1])), a[2], Hex(a[3]), Wd(a[4])))
    [] e.op = "b3_dec" -> LET x == B32Dec(CStr(Hex(a[1])), Wd(a[2])) IN
         IF x = None THEN <<"-", "0">> ELSE <<ToHex(x[1]) \o ".", N(x[2]), ToHex(x[3]) \o ".", "1">>
    [] e.op = "b3_scan" -> LET t == Hex(a[1]) IN
         Tup([c \in 1..256 |-> B01(B32Dec(CStr(Sub(t, a[3], c - 1)), Wd(a[2])) # None)])
    [] e.op = "bx_conv" -> LET x == IF a[4] = 1 THEN Regroup(Hex(a[1]), a[2], a[3]) ELSE Exact(Hex(a[1]), a[2], a[3])
                           IN <<Txt(x), Txt(x)>>
    [] e.op = "c3_ser" -> Bech(C32Ser(CStr(Hex(a[1])), Hex(a[2])))
    [] e.op = "c3_des" -> LET x == C32Des(CStr(Hex(a[1])), CStr(Hex(a[2]))) IN
         IF x = None THEN <<"-", "0">> ELSE <<ToHex(x[1]) \o ".", ToHex(x[2]) \o ".", "1">>
    [] e.op = "c3_enc" -> Bech(C32Enc(CStr(Hex(a[1])), a[2], Hex(a[3])))
    [] e.op = "c3_dec" -> LET x == C32Dec(CStr(Hex(a[1])), CStr(Hex(a[2]))) IN
         IF x = None THEN <<"-", "0">> ELSE <<N(x[1]), ToHex(x[2]) \o ".", "1">>
    [] e.op = "c3_scan" -> LET t == Hex(a[1]) IN
         Tup([c \in 1..256 |-> B01(C32Dec(CStr(Sub(t, a[3], c - 1)), CStr(Hex(a[2]))) # None)])
Nxt(s, e) == s
Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
