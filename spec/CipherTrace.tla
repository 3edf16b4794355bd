---------------------------- MODULE CipherTrace ----------------------------
(* Recorded executions of block ciphers and mode streams (C03, C04, C05). *)
EXTENDS Modes, TraceKit

InitSt == [c |-> [i \in 0..3 |-> [f |-> "none"]], t |-> [i \in 0..3 |-> NoStream]]
KeySize(id) == CASE id \in {"arc2", "arc2_gutmann", "arc2_64", "des"} -> 8 [] id = "blowfish" -> 16 [] id = "none" -> 0
                 [] OTHER -> CHOOSE n \in {5, 8, 16, 24, 32} : KeyOk(id, n)
Both(s, b) == <<ToHex(Enc(s, b)), ToHex(Dec(s, b))>>
Upd(s, e) == Update(s.t[e.a[1]], Hex(e.a[2]))
StreamFrom(a) == Stream(a[2], a[3], a[1] = 1, Hex(a[4]), Hex(a[5]))

Exp(s, e) ==
  LET a == e.a IN
  CASE e.op = "c_sizes" -> <<N(KeySize(a[1])), N(BlockSize(a[1]))>>
    [] e.op = "c_init" -> <<B01(KeyOk(a[2], Len(Hex(a[3]))))>>
    [] e.op = "c_enc" -> <<ToHex(Enc(s.c[a[1]], Hex(a[2])))>>
    [] e.op = "c_dec" -> <<ToHex(Dec(s.c[a[1]], Hex(a[2])))>>
    [] e.op = "c_named" -> Both(Sched(a[1], Hex(a[2])), Hex(a[3]))
    [] e.op = "arc2_ekb" -> Both([f |-> "rc2", k |-> Rc2Keys(Hex(a[1]), IF a[2] = 0 THEN 1024 ELSE a[2])], Hex(a[3]))
    [] e.op = "bf_salt" -> Both([f |-> "bf", k |-> BfExpand(BfInit, Hex(a[2]), Hex(a[1]))], Hex(a[3]))
    [] e.op = "p7_pad" -> <<ToHex(P7Pad(Hex(a[1]), a[2]))>>
    [] e.op = "p7_unpad" -> LET b == Hex(a[1]) IN IF P7Ok(b) THEN <<"1", ToHex(P7Strip(b))>> ELSE <<"0", "">>
    [] e.op = "steal" -> LET r == EcbSteal(a[2] = 1, Sched(a[3], Hex(a[4])), Hex(a[6]), Hex(a[7])) IN <<ToHex(r[1]), ToHex(r[2])>>
    [] e.op = "s_init" -> <<B01(StreamOk(a[2], a[3], Hex(a[5]), Hex(a[6])))>>
    [] e.op = "s_pad" -> <<B01(CanSetPadding(s.t[a[1]]))>>
    [] e.op = "s_aad" -> <<B01(s.t[a[1]].mode \in {"gcm", "eax"})>>
    [] e.op = "s_ccm" -> <<B01(CcmOk(s.t[a[1]], a[3]))>>
    [] e.op = "s_settag" -> <<B01(~s.t[a[1]].enc /\ TagOk(s.t[a[1]], Len(Hex(a[2]))))>>
    [] e.op = "s_gettag" -> LET t == s.t[a[1]] IN
                            IF t.mode \in AeadModes /\ t.enc /\ t.done THEN <<"1", ToHex(Tag(t))>> ELSE <<"0", "">>
    [] e.op = "s_update" -> LET t == s.t[a[1]] IN <<N(UpdateSize(t, Len(Hex(a[2])))), ToHex(Upd(s, e)[2])>>
    [] e.op = "s_crypt" -> LET t == s.t[a[1]] n == Len(Hex(a[2])) IN
                           IF t.mode \in BlockModes /\ (Holds(t) \/ t.buf # <<>> \/ n % t.bs # 0) THEN <<"0", "">>
                           ELSE <<"1", ToHex(Upd(s, e)[2])>>
    [] e.op = "s_final" -> LET t == s.t[a[1]] f == Final(t) IN <<N(FinalSize(t)), B01(f[1]), ToHex(f[2])>>
    [] e.op = "s_copy" -> OK
    [] e.op = "s_static" -> IF a[3] \in AeadModes \/ ~StreamOk(a[2], a[3], Hex(a[4]), Hex(a[5])) THEN <<"0", "">>
                            ELSE LET w == Whole(StreamFrom(a), Hex(a[6])) IN <<B01(w[1]), ToHex(w[2])>>
    [] e.op = "s_cuts" ->
         LET t0 == StreamFrom(a)
             m == Hex(a[6])
             t1 == [t0 EXCEPT !.aad = Hex(a[7]), !.tag = Hex(a[8]), !.mlen = Len(m), !.ccm = IF t0.mode = "ccm" THEN Len(Hex(a[8])) ELSE 0,
                              !.c = IF t0.mode = "ccm" THEN KsInit(IncBE(CcmCtr0(t0.iv, CcmL(Len(t0.iv), Len(m))), 2)) ELSE @]
             u == Update(t1, m)
             f == Final(u[1])
         IN <<B01(f[1]), ToHex(u[2] \o f[2] \o (IF t0.mode \in AeadModes /\ t0.enc THEN Tag(u[1]) ELSE <<>>))>>

Nxt(s, e) ==
  LET a == e.a IN
  CASE e.op = "c_init" -> [s EXCEPT !.c[a[1]] = IF KeyOk(a[2], Len(Hex(a[3]))) THEN Sched(a[2], Hex(a[3])) ELSE [f |-> "none"]]
    [] e.op = "s_init" -> [s EXCEPT !.t[a[1]] = Stream(a[2], a[3], a[4] = 1, Hex(a[5]), Hex(a[6]))]
    [] e.op = "s_pad" -> IF CanSetPadding(s.t[a[1]]) THEN [s EXCEPT !.t[a[1]].pad = (a[2] # 0)] ELSE s
    [] e.op = "s_aad" -> IF e.r = <<"1">> THEN [s EXCEPT !.t[a[1]].aad = @ \o Hex(a[2])] ELSE s
    [] e.op = "s_ccm" -> IF e.r = <<"1">>
                         THEN [s EXCEPT !.t[a[1]].aad = Hex(a[4]), !.t[a[1]].ccm = a[3], !.t[a[1]].mlen = a[2],
                                        !.t[a[1]].c = KsInit(IncBE(CcmCtr0(s.t[a[1]].iv, CcmL(Len(s.t[a[1]].iv), a[2])), 2))]
                         ELSE s
    [] e.op = "s_settag" -> IF e.r = <<"1">> THEN [s EXCEPT !.t[a[1]].tag = Hex(a[2])] ELSE s
    [] e.op = "s_update" -> [s EXCEPT !.t[a[1]] = Upd(s, e)[1]]
    [] e.op = "s_crypt" -> IF e.r[1] = "1" THEN [s EXCEPT !.t[a[1]] = Upd(s, e)[1]] ELSE s
    [] e.op = "s_final" -> [s EXCEPT !.t[a[1]].done = (e.r[2] = "1")]
    [] e.op = "s_copy" -> [s EXCEPT !.t[a[1]] = s.t[a[2]]]
    [] OTHER -> s

Ok(s, e) == e.r = Exp(s, e)
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
