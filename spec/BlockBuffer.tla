---------------------------- MODULE BlockBuffer ----------------------------
(***************************************************************************)
(* Design of an incremental block function: input arrives in pieces, whole *)
(* blocks are processed as soon as they are complete (Lazy = FALSE) or only*)
(* when more input follows (Lazy = TRUE, needed when the last block is     *)
(* treated differently, as in BLAKE2 or when unpadding).  Bytes are their  *)
(* indices in the message, so the invariants say exactly which byte ends   *)
(* up where.  TLC explores every cutting; Report prints each complete      *)
(* history (the total lengths after each piece) for replay on the code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS B,        \* block size
          MaxTotal, \* message length bound
          MaxCalls, \* number of pieces
          Lazy
VARIABLES fed,    \* bytes fed so far
          buf,    \* waiting bytes
          done,   \* processed blocks
          hist,   \* totals after each call
          fin
vars == <<fed, buf, done, hist, fin>>

Init == fed = 0 /\ buf = <<>> /\ done = <<>> /\ hist = <<>> /\ fin = FALSE

\* the algorithm: fill the buffer, process it, process whole blocks directly, keep the rest
RECURSIVE Eat(_, _, _)
Eat(b, d, in) ==
  LET want == B - Len(b)
      full == IF Lazy THEN Len(in) > want ELSE Len(in) >= want
  IN IF full THEN Eat(<<>>, Append(d, b \o SubSeq(in, 1, want)), SubSeq(in, want + 1, Len(in)))
     ELSE <<b \o in, d>>

Update == /\ ~fin /\ Len(hist) < MaxCalls
          /\ \E n \in 0..(MaxTotal - fed) :
               LET r == Eat(buf, done, [i \in 1..n |-> fed + i])
               IN buf' = r[1] /\ done' = r[2] /\ fed' = fed + n /\ hist' = Append(hist, fed + n)
          /\ UNCHANGED fin
Final == /\ ~fin /\ Len(hist) = MaxCalls
         /\ fin' = TRUE
         /\ PrintT(<<"H", hist>>)
         /\ UNCHANGED <<fed, buf, done, hist>>
Next == Update \/ Final
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* nothing lost, duplicated or reordered, for every cutting
Conserved == Flat(done) \o buf = [i \in 1..fed |-> i]
BlocksWhole == \A i \in 1..Len(done) : Len(done[i]) = B
\* the state is a function of the total only: cutting is unobservable
Position == /\ Len(buf) = IF Lazy THEN (IF fed = 0 THEN 0 ELSE ((fed - 1) % B) + 1) ELSE fed % B
            /\ Len(done) = IF Lazy THEN (IF fed = 0 THEN 0 ELSE (fed - 1) \div B) ELSE fed \div B
=============================================================================
