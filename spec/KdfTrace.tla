------------------------------ MODULE KdfTrace -----------------------------
\* Key derivation calls; a refusal gives "-".
EXTENDS Kdf, BigInt, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
RECURSIVE CStrR(_, _)
CStrR(s, i) == IF i > Len(s) \/ s[i] = 0 THEN Take(s, i - 1) ELSE CStrR(s, i + 1)
CStr(s) == CStrR(s, 1)
Exp(s, e) ==
  LET a == e.a IN
  CASE e.op = "kd_extract" -> <<Txt(HkdfExtract(a[1], Hex(a[2]), Hex(a[3])))>>
    [] e.op = "kd_expand" -> <<Txt(HkdfExpand(a[1], Hex(a[2]), Hex(a[3]), a[4]))>>
    [] e.op = "kd_pbkdf2" -> <<Txt(Pbkdf2(a[1], Hex(a[2]), Hex(a[3]), a[4], a[5]))>>
    [] e.op = "kd_eb2k" -> LET x == Eb2k(a[1], Hex(a[2]), Hex(a[3]), a[4], a[5]) IN
         IF x = None THEN <<"-">> ELSE <<ToHex(x[1]) \o ".", ToHex(x[2]) \o ".">>
    [] e.op = "kd_pgp0" -> <<Txt(PgpSalted(a[1], Hex(a[2]), <<>>, a[3]))>>
    [] e.op = "kd_pgp1" -> <<Txt(PgpSalted(a[1], Hex(a[2]), Hex(a[3]), a[4]))>>
    [] e.op = "kd_pgp2" -> <<Txt(PgpIterated(a[1], Hex(a[2]), Hex(a[3]), a[4], a[5]))>>
    [] e.op = "kd_scrypt" -> <<Txt(Scrypt(Hex(a[1]), Hex(a[2]), ZBE(Hex(a[3])), ZBE(Hex(a[4])), ZBE(Hex(a[5])), a[6]))>>
    [] e.op = "kd_bcgen" -> <<Txt(BcGen(Hex(a[1]), Hex(a[2]), a[3], a[4]))>>
    [] e.op = "kd_bcver" -> <<B01(BcVerify(Hex(a[1]), CStr(Hex(a[2]))))>>
    [] e.op = "kd_bchash" -> LET p == CStr(Hex(a[1])) IN <<IF BcTextOk(p) THEN Txt(BcGen(p, Hex(a[2]), a[3], a[4])) ELSE "-">>
    [] e.op = "kd_bccheck" -> LET p == CStr(Hex(a[1])) IN <<B01(BcTextOk(p) /\ BcVerify(p, CStr(Hex(a[2]))))>>
    [] e.op = "kd_bcpbkdf" -> <<Txt(BcPbkdf(Hex(a[1]), Hex(a[2]), a[3], a[4]))>>
    [] e.op = "kd_badhash" -> <<"0", "0", "0", "0", "0", "0">>
Nxt(s, e) == s
Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
