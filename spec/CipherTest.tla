----------------------------- MODULE CipherTest ----------------------------
(* The accelerated evaluations agree with the TLA+ definitions. *)
EXTENDS Modes
VARIABLES i
P(k, n) == Tup([j \in 1..n |-> (((k + 7) * 2654 + j * j * 37 + k * j * 11) \div 3) % 256])
Init == i = 0
Next == i < 24 /\ i' = i + 1
Aes == \A n \in {16, 24, 32} : LET k == P(i, n) b == P(i + 99, 16) w == AesKeys(k) IN
         /\ JdkEnc("AES", k, b) = AesEncDef(w, b)
         /\ JdkDec("AES", k, b) = AesDecDef(w, b)
         /\ AesDecDef(w, AesEncDef(w, b)) = b
Des == LET k == P(i, 8) b == P(i + 99, 8) k3 == P(i, 24) IN
         /\ JdkEnc("DES", k, b) = DesEncDef(k, b)
         /\ JdkDec("DES", k, b) = DesDecDef(k, b)
         /\ JdkEnc("DESede", k3, b) = Des3EncDef(k3, b)
         /\ JdkDec("DESede", k3, b) = Des3DecDef(k3, b)
Bf == (i < 3) => LET k == P(i, 5 + 20 * i) st == BfExpand(BfInit, P(i, 16 * i), k) IN
         /\ st = BfExpandDef(BfInit, P(i, 16 * i), k)
         /\ BfEncW(st, i, i + 1) = BfEncWDef(st, i, i + 1)
         /\ BfDecWDef(st, BfEncWDef(st, i, 5)[1], BfEncWDef(st, i, 5)[2]) = <<i, 5>>
Gf == LET x == <<L64BE(P(i, 8), 0), L64BE(P(i + 1, 8), 0)>> y == <<L64BE(P(i + 2, 8), 0), L64BE(P(i + 3, 8), 0)>> IN
         /\ GfMul(x, y) = GfMulDef(x, y)
         /\ GfMul(x, y) = GfMul(y, x)
\* every cipher is a permutation pair
Inv == \A id \in CipherIds : LET s == Sched(id, P(i, CHOOSE n \in {5, 8, 16, 24, 32} : KeyOk(id, n))) b == P(i + 50, BlockSize(id)) IN
         Dec(s, Enc(s, b)) = b /\ Enc(s, Dec(s, b)) = b
=============================================================================
