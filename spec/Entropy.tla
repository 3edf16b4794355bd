------------------------------- MODULE Entropy -----------------------------
(***************************************************************************)
(* The contract of a request for system randomness, as a monitor over the  *)
(* calls made to the operating system and their results.                   *)
(*                                                                         *)
(* A record is <<kind, who, off, len, res, info>>:                         *)
(*   g  randomness system call     off/len of the piece of the buffer,     *)
(*   r  read of descriptor who     result, then the bytes or the error     *)
(*   o  open of device who ("u" urandom, "r" random, "x" other): res is    *)
(*      the descriptor or -1, info "chr"/"other" (what it really is)       *)
(*   s  stat   p  poll   f  fcntl   c  close   y  uuid request             *)
(*   R  return of the call: info is the buffer, res the result, off "1"    *)
(*      when the caller's error indicator is as before                     *)
(***************************************************************************)
EXTENDS Words, Naturals, Sequences, FiniteSets, TLC

Transient == {"EINTR", "EAGAIN"}

\* m: open descriptors -> whether they are genuine devices; cov: offset -> byte or "bad";
\* sys, dev: the system call / the device has refused for good; ok: no rule broken
Fresh == [fds |-> <<>>, cov |-> <<>>, sys |-> FALSE, dev |-> FALSE, ypos |-> 0, ok |-> TRUE, why |-> ""]
Bad(m, w) == [m EXCEPT !.ok = FALSE, !.why = IF @ = "" THEN w ELSE @]
Put(cov, off, bytes, good) ==
  [i \in DOMAIN cov \cup {off + k : k \in 0..Len(bytes)-1} |->
     IF i >= off /\ i < off + Len(bytes) THEN (IF good THEN bytes[i - off + 1] ELSE 256) ELSE cov[i]]
\* the uuid interface gives 14 usable bytes per request
UuidBytes(u) == <<u[1], u[2], u[3], u[4], u[5], u[6], u[15], u[8], u[16], u[10], u[11], u[12], u[13], u[14]>>

Step(m, r) ==
  LET k == r[1] who == r[2] off == r[3] len == r[4] res == r[5] info == r[6] IN
  CASE k = "g" -> IF res = "-1" THEN [m EXCEPT !.sys = @ \/ info \notin Transient]
                  ELSE IF res = "0" THEN m
                  ELSE [m EXCEPT !.cov = Put(@, SInt(off), Hex(info), TRUE)]
    [] k = "o" -> IF res = "-1" THEN (IF info = "EINTR" \/ (info = "EINVAL" /\ off = "1") THEN m ELSE [m EXCEPT !.dev = TRUE])
                  ELSE [m EXCEPT !.fds = (res :> (info = "chr")) @@ @]
    [] k = "s" -> IF res = "-1" \/ info # "chr" THEN [m EXCEPT !.dev = TRUE] ELSE m
    [] k = "p" -> IF res = "1" \/ (res = "-1" /\ info \in Transient) THEN m ELSE [m EXCEPT !.dev = TRUE]
    [] k = "r" -> IF who \notin DOMAIN m.fds THEN Bad(m, "read of a descriptor that is not open")
                  ELSE IF res = "-1" THEN [m EXCEPT !.dev = @ \/ info \notin Transient]
                  ELSE IF res = "0" THEN [m EXCEPT !.dev = TRUE]
                  ELSE [m EXCEPT !.cov = Put(@, SInt(off), Hex(info), m.fds[who])]
    [] k = "c" -> IF who \notin DOMAIN m.fds THEN Bad(m, "close of a descriptor that is not open")
                  ELSE [m EXCEPT !.fds = [f \in DOMAIN @ \ {who} |-> @[f]]]
    [] k = "y" -> IF res # "16" THEN m
                  ELSE [m EXCEPT !.cov = Put(@, m.ypos, UuidBytes(Hex(info)), TRUE), !.ypos = @ + 14]
    [] k = "f" -> m

AllZero(b) == \A i \in 1..Len(b) : b[i] = 0
\* genuine bytes cover an initial segment of at least n bytes of the target
Covered(m, n) == \A i \in 0..n-1 : i \in DOMAIN m.cov /\ m.cov[i] # 256

\* the call returned; api "entropy" fills the caller's buffer directly, the others seed a generator.
\* seeded: the generator of this thread holds a seed
Return(m, api, seeded, r) ==
  LET buf == IF r[6] = "-" THEN <<>> ELSE Hex(r[6])
      m1 == IF r[2] # "ok" THEN Bad(m, "wrote past the buffer")
            ELSE IF r[3] # "1" THEN Bad(m, "error indicator changed")
            ELSE IF DOMAIN m.fds # {} THEN Bad(m, "descriptor left open") ELSE m
  IN IF ~m1.ok THEN m1
     ELSE IF r[5] = "1" THEN
       IF api = "entropy"
       THEN IF \A i \in 1..Len(buf) : (i - 1) \in DOMAIN m.cov /\ m.cov[i - 1] = buf[i] THEN m1
            ELSE Bad(m1, "success without genuine bytes in the whole buffer")
       ELSE IF ~seeded /\ ~Covered(m, 32) THEN Bad(m1, "output from a generator without a genuine seed")
            ELSE IF Len(buf) >= 16 /\ (AllZero(buf) \/ \A i \in 1..Len(buf) : buf[i] = 165) THEN Bad(m1, "buffer not filled") ELSE m1
     ELSE IF r[5] # "0" THEN Bad(m1, "result is neither success nor failure")
     ELSE IF ~AllZero(buf) THEN Bad(m1, "failure with a buffer that is not zeroed")
     ELSE IF ~(m.sys /\ m.dev) THEN Bad(m1, "failure although a source had not refused")
     ELSE m1
=============================================================================
