------------------------------ MODULE DsaTrace -----------------------------
(***************************************************************************)
(* DSA calls.  The state remembers what generation returned for which seed *)
(***************************************************************************)
EXTENDS Dsa, TraceKit
Txt(x) == IF x = None THEN "-" ELSE ToHex(x) \o "."
KeyTxt(k, enc(_)) == IF k = <<>> THEN "-" ELSE ToHex(enc(k)) \o "."
UnTxt(t) == IF t = "-" THEN None ELSE Hex(SubSeq(t, 1, Len(t) - 1))
Info(x, sane(_), ok(_)) ==
  LET k == Sane(x, sane) IN
  <<IF k = <<>> THEN "0" ELSE N(ZBitLen(k[1])), IF k = <<>> THEN "0" ELSE N(ZBitLen(k[2])), B01(Sane(x, ok) # <<>>)>>
PrivImport(s) ==
  LET x == ReadPlain(s, 5)
      v == x.v
  IN IF ~x.ok THEN <<>>
     ELSE IF v[4] # Z0 THEN (IF PrivSane(v) THEN v ELSE <<>>)
     ELSE IF GroupSane(v) /\ XSane(v) THEN <<v[1], v[2], v[3], ZPowMod(v[3], v[5], v[1]), v[5]>> ELSE <<>>
Exp(s, e) ==
  LET a == e.a
      k == Hex(a[1])
  IN
  CASE e.op = "ds_params" -> Info(ParamsDer(k), GroupSane, GroupOk)
    [] e.op = "ds_pub" -> Info(PubDer(k), PubSane, PubOk)
    [] e.op = "ds_priv" -> Info(PrivDer(k), PrivSane, PrivOk)
    [] e.op = "ds_parimp" -> <<KeyTxt(Sane(ReadPlain(k, 3), GroupSane), EncParams)>>
    [] e.op = "ds_parexp" -> <<KeyTxt(Sane(ParamsDer(k), GroupSane), EncPlain)>>
    [] e.op = "ds_pubimp" -> <<KeyTxt(Sane(ReadPlain(k, 4), PubSane), EncPub)>>
    [] e.op = "ds_pubexp" -> <<KeyTxt(Sane(PubDer(k), PubSane), EncPlain)>>
    [] e.op = "ds_privimp" -> <<KeyTxt(PrivImport(k), EncPriv)>>
    [] e.op = "ds_privexp" -> <<KeyTxt(Sane(PrivDer(k), PrivSane), EncPlain)>>
    [] e.op = "ds_pubcreate" -> <<KeyTxt(Sane(PrivDer(k), PrivSane), EncPub)>>
    [] e.op = "ds_parcreate" -> <<KeyTxt(Sane(IF PrivDer(k).ok THEN PrivDer(k) ELSE PubDer(k), GroupSane), EncParams)>>
    [] e.op = "ds_sigexp" -> <<Txt(ToDer(k, a[2]))>>
    [] e.op = "ds_sigimp" -> <<Txt(FromDer(k, a[2]))>>
    [] e.op = "ds_sign" -> <<Txt(Sign(k, Hex(a[2])))>>
    [] e.op = "ds_verify" -> <<B01(Verify(k, Hex(a[2]), Hex(a[3])))>>
    [] e.op = "ds_derive" -> <<Txt(Derive(k, Hex(a[2])))>>
    [] e.op = "ds_gen" -> IF QBits(a[2]) # 0 THEN <<"parameters">> ELSE <<"-">>
    [] e.op = "ds_genpriv" -> IF QBits(a[2]) # 0 THEN <<"key">> ELSE <<"-">>
    [] e.op = "ds_create" -> IF Sane(ParamsDer(Hex(a[2])), GroupSane) # <<>> THEN <<"key">> ELSE <<"-">>
Repeats(s, e) == \A i \in 1..Len(s) : (s[i][1] = <<e.op, e.a>>) <=> (s[i][2] = e.r)
Ok(s, e) ==
  LET a == e.a
      r == e.r
  IN IF e.op \notin {"ds_gen", "ds_genpriv", "ds_create"} THEN r = Exp(s, e)
     ELSE IF Exp(s, e) = <<"-">> THEN r = <<"-">>
     ELSE IF Len(r) # 1 \/ r[1] = "-" THEN FALSE
     ELSE IF e.op = "ds_gen" THEN LET x == ParamsDer(UnTxt(r[1])) IN x.ok /\ Generated(x.v, a[2]) /\ Repeats(s, e)
     ELSE IF e.op = "ds_genpriv"
          THEN LET x == PrivDer(UnTxt(r[1])) IN x.ok /\ PrivOk(x.v) /\ Generated(x.v, a[2]) /\ Repeats(s, e)
     ELSE LET x == PrivDer(UnTxt(r[1])) IN
          /\ x.ok /\ Take(x.v, 3) = ParamsDer(Hex(a[2])).v /\ XSane(x.v)
          /\ x.v[4] = ZPowMod(x.v[3], x.v[5], x.v[1]) /\ Repeats(s, e)
Nxt(s, e) == IF e.op \in {"ds_gen", "ds_genpriv", "ds_create"} THEN Append(s, <<<<e.op, e.a>>, e.r>>) ELSE s
TraceInit == TInit(<<>>)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
