--------------------------- MODULE GeneratorTrace --------------------------
(***************************************************************************)
(* Recorded schedules with the bytes every source gave during each call:   *)
(*   rg_start seed hw twin; rg_fork a b; rg_thread a b;                    *)
(*   gn_bytes a n; gn_words a k; gn_uniform a k max                        *)
(* results: success, bytes of the system, bytes and words of the hardware, *)
(* runs of words given out earlier that static storage still holds,        *)
(* output, image of the variables of the thread                            *)
(***************************************************************************)
EXTENDS Generator, TraceKit, FiniteSets

None == [key |-> <<>>]
InitSt == [act |-> <<>>, procs |-> 0, mix |-> FALSE, hwseed |-> FALSE]
Fresh(p) == [proc |-> p, pid |-> 0, g |-> None, old |-> {}]
Stale(x) == x.pid # x.proc
\* the seed is 64 bytes of the system and, with a hardware source of seeds, 64 bytes of that
Shape(s, e) ==
  LET x == s.act[e.a[1]] IN
  IF Len(e.r) # 7 THEN "seven results"
  ELSE IF Len(e.r[2]) # (IF Stale(x) THEN 128 ELSE 0) THEN "64 bytes of the system exactly when the generator is seeded"
  ELSE IF Len(e.r[3]) # (IF Stale(x) /\ s.hwseed THEN 128 ELSE 0) THEN "64 bytes of the hardware exactly when the generator is seeded"
  ELSE ""
Run(s, e) ==
  LET x == s.act[e.a[1]]
      g == IF Stale(x) THEN SeedOf(Hex(e.r[2]), Hex(e.r[3])) ELSE x.g
      xs == Tup(Words32LE(Hex(e.r[4])))
      c0 == [g |-> g, xs |-> xs, used |-> 0, w |-> 0, old |-> {}]
      max == IF e.op = "gn_uniform" THEN ZBE(Hex(e.a[3])) ELSE Z0
      one(a, i) == LET d == IF e.op = "gn_words" THEN Word(a.c, s.mix) ELSE Bounded(a.c, s.mix, max)
                   IN [c |-> d, out |-> Append(a.out, d.w)]
  IN IF e.op = "gn_bytes"
     THEN LET y == Generate(g, e.a[2], IF s.mix THEN Hd(xs) ELSE 0)
          IN [g |-> y.g, used |-> IF s.mix THEN 1 ELSE 0, out |-> y.out,
              old |-> y.old \cup {W32LE(y.out, 4 * i - 4) : i \in 1..(IF Len(y.out) > 256 THEN 64 ELSE Len(y.out) \div 4)}]
     ELSE LET y == Iter(one, [c |-> c0, out |-> <<>>], e.a[2])
          IN [g |-> y.c.g, used |-> y.c.used, old |-> y.c.old, out |-> Cat32BE(Tup(y.out))]
\* one word in common may be chance; small numbers are no secrets
Forgotten(old, image) ==
  LET w == Words32LE(Hex(image)) IN Cardinality({i \in 1..Len(w) : w[i] \in old /\ (w[i] < 0 \/ w[i] > 65535)}) <= 1
Draws == {"gn_bytes", "gn_words", "gn_uniform"}
Exp(s, e) ==
  IF e.op \notin Draws THEN OK
  ELSE IF Shape(s, e) # "" THEN <<Shape(s, e)>>
  ELSE LET y == Run(s, e) IN
       <<"1", e.r[2], e.r[3], IF Len(e.r[4]) = 8 * y.used THEN e.r[4] ELSE "a word of the hardware for every new key", "0", ToHex(y.out),
         IF Forgotten(s.act[e.a[1]].old \cup y.old, e.r[7]) THEN e.r[7] ELSE "no key of the past and no word given out in memory">>
Ok(s, e) == e.r = Exp(s, e)
Nxt(s, e) ==
  CASE e.op = "rg_start" -> [act |-> 0 :> Fresh(1), procs |-> 1, mix |-> e.a[2] % 2 = 1, hwseed |-> e.a[2] \div 2 = 1]
    [] e.op = "rg_fork" -> [s EXCEPT !.act = (e.a[2] :> [s.act[e.a[1]] EXCEPT !.proc = s.procs + 1]) @@ @, !.procs = @ + 1]
    [] e.op = "rg_thread" -> [s EXCEPT !.act = (e.a[2] :> Fresh(s.act[e.a[1]].proc)) @@ @]
    [] e.op \in Draws -> [s EXCEPT !.act[e.a[1]].g = Run(s, e).g, !.act[e.a[1]].pid = s.act[e.a[1]].proc,
                                !.act[e.a[1]].old = @ \cup Run(s, e).old]
    [] OTHER -> s
TraceInit == TInit(InitSt)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
