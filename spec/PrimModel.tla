------------------------------ MODULE PrimModel -----------------------------
(***************************************************************************)
(* The laws of the modes: whatever the calls that a message is split into, *)
(* what comes out is that of one call, decryption (with any other split)   *)
(* gives the message back, and so it does after ciphertext stealing.       *)
(***************************************************************************)
EXTENDS Prim, TLC, TLCExt
CONSTANTS MaxCalls
VARIABLES mode, hist, e, d, ct, pt, part
vars == <<mode, hist, e, d, ct, pt, part>>
Id == "aes128"
Key == Tup([i \in 1..16 |-> (37 * i) % 256])
Key2 == Tup([i \in 1..16 |-> (91 * i + 3) % 256])
Iv == Tup([i \in 1..16 |-> 255 - (i \div 15)])
Text(n) == Tup([i \in 1..n |-> (i * i * 7 + 11 * i) % 256])
Start(m, enc) == Prim(m, enc, Id, Key, Iv, Key2)
Sum(h) == Fold(LAMBDA x, y : x + y, 0, h)
Sizes(m) == IF m \in BlockModes THEN {0, 16, 32, 48} ELSE {0, 1, 15, 16, 17, 35}
Begin(m, enc) == IF m = "ccm" THEN PrimCcm(Start(m, enc), 40, 8, Text(5)) ELSE Start(m, enc)
Init == /\ mode \in {"ecb", "cbc", "xts", "ctr", "cfb", "ofb", "gcm", "ccm", "eax"}
        /\ hist = <<>> /\ e = Begin(mode, TRUE) /\ d = Begin(mode, FALSE) /\ ct = <<>> /\ pt = <<>> /\ part = -1
Crypt(n) ==
  /\ part = -1 /\ Len(hist) < MaxCalls
  /\ LET x == PrimCrypt(e, Drop(Text(Sum(hist) + n), Sum(hist)))
     IN e' = x[1] /\ ct' = ct \o x[2]
  /\ hist' = Append(hist, n)
  /\ UNCHANGED <<mode, d, pt, part>>
\* the other side takes what it has not taken yet in one call
Take1 == /\ part = -1 /\ Len(pt) < Len(ct)
         /\ LET y == PrimCrypt(d, Drop(ct, Len(pt))) IN d' = y[1] /\ pt' = pt \o y[2]
         /\ UNCHANGED <<mode, hist, e, ct, part>>
Steal(k) ==
  /\ part = -1 /\ mode \in BlockModes /\ Len(ct) > 0 /\ Len(pt) = Len(ct)
  /\ LET p == Drop(Text(Len(ct) + k), Len(ct))
         x == PrimSteal(e, p)
         n == Len(ct) - 16
         \* decryption sees the block that stealing has put last
         q == PrimCrypt(IF n = 0 THEN Begin(mode, FALSE) ELSE PrimCrypt(Begin(mode, FALSE), Take(ct, n))[1], x[1])
         y == PrimSteal(q[1], x[2])
     IN /\ ct' = Take(ct, n) \o x[1] \o x[2]
        /\ pt' = Take(pt, n) \o y[1] \o y[2]
  /\ part' = k /\ UNCHANGED <<mode, hist, e, d>>
Next == (\E n \in Sizes(mode) : Crypt(n)) \/ Take1 \/ (\E k \in {0, 1, 8, 15} : Steal(k))
\* laws
Back == pt = Text(Sum(hist) + (IF part > 0 THEN part ELSE 0)) \/ (part = -1 /\ pt = Text(Len(pt)))
OneCall == part = -1 => ct = PrimCrypt(Begin(mode, TRUE), Text(Sum(hist)))[2]
SameTag == (mode \in AeadModes /\ Len(pt) = Len(ct)) => PrimTag(d) = PrimTag(e)
\* histories for the implementation
Say == (part = -1 /\ Len(hist) = MaxCalls) => PrintT(<<"H", mode, hist>>)
=============================================================================
