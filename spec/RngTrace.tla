------------------------------ MODULE RngTrace -----------------------------
(***************************************************************************)
(* Recorded schedules over processes and threads.  Entropy comes from a    *)
(* stand-in for the system that hands every byte out once.                 *)
(*   rg_start seed hw twin; rg_fork a b; rg_thread a b;                    *)
(*   rg_bytes a n; rg_entropy a n; rg_words a k; rg_uniform a k max        *)
(***************************************************************************)
EXTENDS BigInt, TraceKit, FiniteSets

\* seeded: actor -> drew under its present identity; used: words given out; rep: repetitions seen;
\* ref: words drawn first after a start, first: nothing drawn since the start
InitSt == [seeded |-> <<>>, used |-> {}, rep |-> 0, ref |-> <<>>, seed |-> -1, hw |-> 0, first |-> TRUE, same |-> FALSE]
Draws == {"rg_bytes", "rg_entropy", "rg_words", "rg_uniform"}
Word(b, i) == SubSeq(b, 4 * i - 3, 4 * i)
WordList(e) == LET b == Hex(e.r[3]) IN
  Tup([i \in 1..(Len(b) \div 4) |-> IF e.op = "rg_words" THEN Rev(Word(b, i)) ELSE Word(b, i)])
\* coincidences of single 32-bit words are tolerated, repeated stretches are not
Repeats(s, ws) == Len(ws) - Cardinality({ws[i] : i \in 1..Len(ws)} \ s.used)
MaxCoincidences == 2

\* bounded integers: the next word whose residue class is complete
UStep(max, ws) ==
  LET take(c, w) == LET x == ZBE(w)
                      r == x %% max
                  IN IF ZLe(x -- r, Z2(32) -- max) THEN Append(c, r) ELSE c
  IN Fold(take, <<>>, ws)
WordsOf(b) == Tup([i \in 1..(Len(b) \div 4) |-> Word(b, i)])
UMax(e) == ZBE(Hex(e.a[3]))
UniformOk(s, e) ==
  LET max == UMax(e)
      got == WordsOf(Hex(e.r[3]))
      want == UStep(max, s.ref)
  IN IF ZLe(max, Z(1)) THEN \A i \in 1..Len(got) : got[i] = <<0, 0, 0, 0>>
     ELSE /\ \A i \in 1..Len(got) : ZLt(ZBE(got[i]), max)
          /\ s.first /\ s.same => \A i \in 1..Len(got) : i <= Len(want) => ZBE(got[i]) = want[i]

Need(s, e) == IF e.op = "rg_entropy" THEN e.a[2]
              ELSE IF e.a[1] \in DOMAIN s.seeded /\ s.seeded[e.a[1]] THEN 0 ELSE 32
Problem(s, e) ==
  IF e.op \notin Draws THEN (IF e.r = OK THEN "" ELSE "ok")
  ELSE IF Len(e.r) # 3 THEN "three results"
  ELSE IF e.r[1] # "1" THEN "success"
  ELSE IF Len(Hex(e.r[3])) # e.a[2] * (IF e.op \in {"rg_words", "rg_uniform"} THEN 4 ELSE 1) THEN "the requested amount"
  ELSE IF SInt(e.r[2]) < Need(s, e) THEN "fresh entropy before output"
  ELSE IF e.op # "rg_uniform" /\ s.rep + Repeats(s, WordList(e)) > MaxCoincidences THEN "output never given out before"
  ELSE IF e.op = "rg_uniform" /\ ~UniformOk(s, e) THEN "values below the bound, uniform in the words"
  ELSE ""
Exp(s, e) == Problem(s, e)
Ok(s, e) == Problem(s, e) = ""
Nxt(s, e) ==
  CASE e.op = "rg_start" ->
         [s EXCEPT !.seeded = 0 :> FALSE, !.used = IF e.a[3] = 1 THEN {} ELSE @, !.rep = IF e.a[3] = 1 THEN 0 ELSE @,
                   !.same = (e.a[1] = s.seed /\ e.a[2] = s.hw), !.seed = e.a[1], !.hw = e.a[2], !.first = TRUE]
    [] e.op \in {"rg_fork", "rg_thread"} -> [s EXCEPT !.seeded = (e.a[2] :> FALSE) @@ @]
    [] e.op \in Draws ->
         [s EXCEPT !.seeded = IF e.op = "rg_entropy" THEN @ ELSE (e.a[1] :> TRUE) @@ @,
                   !.used = IF e.op = "rg_uniform" THEN @ ELSE @ \cup {WordList(e)[i] : i \in 1..Len(WordList(e))},
                   !.rep = IF e.op = "rg_uniform" THEN @ ELSE @ + Repeats(s, WordList(e)),
                   !.ref = IF e.op = "rg_words" /\ s.first THEN WordsOf(Hex(e.r[3])) ELSE @,
                   !.first = FALSE]
    [] OTHER -> s
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
