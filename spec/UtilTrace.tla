------------------------------ MODULE UtilTrace ----------------------------
EXTENDS Util, TraceKit
Exp(s, e) ==
  LET a == e.a IN
  CASE e.op = "ut_zero" -> <<ToHex(Erase(Hex(a[1]), a[2], a[3]))>>
    [] e.op = "ut_cmp" -> LET x == Hex(a[1]) y == Hex(a[2]) k == N(CmpFrom(x, y, 1)) IN <<k, k, B01(x = y)>>
    [] e.op = "ut_cmps" -> LET x == Hex(a[1]) IN
         \* every single-byte change at position a[2]
         Tup([c \in 1..256 |-> LET y == [x EXCEPT ![a[2] + 1] = c - 1] IN N(CmpFrom(x, y, 1)) \o B01(x = y)])
    [] e.op = "ut_xor" -> <<ToHex(XorInto(Hex(a[1]), a[2], Hex(a[3])))>>
    [] e.op = "ut_xor3" -> <<ToHex(Put(Hex(a[1]), a[2], BXor(Hex(a[3]), Hex(a[4]))))>>
    [] e.op = "ut_xor3a" -> <<ToHex(BXor(Hex(a[1]), Hex(a[2]))), ToHex(BXor(Hex(a[1]), Hex(a[2])))>>
    [] e.op = "ut_murmur" -> <<ToHex(BE32(Murmur3(Hex(a[1]), W(a[3]))))>>
    [] e.op = "ut_tweak" -> <<ToHex(BE32(MurmurTweak(Hex(a[1]), W(a[2]), W(a[3]))))>>
    [] e.op = "ut_sip" -> <<ToHex(BE64(SipHash(Hex(a[1]), Hex(a[3]))))>>
    [] e.op = "ut_sipmod" -> <<ToHex(BEZ(SipMod(Hex(a[1]), Hex(a[2]), ZBE(Hex(a[3]))), 8))>>
    [] e.op = "ut_sip128" -> <<ToHex(BE64(Sip128(L(a[1]), Hex(a[2]))))>>
    [] e.op = "ut_sip256" -> <<ToHex(BE64(Sip256(L(a[1]), Hex(a[2]))))>>
Nxt(s, e) == s
Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
