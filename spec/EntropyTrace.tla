---------------------------- MODULE EntropyTrace ---------------------------
\* One event is a session in a new thread: calls of one interface under a scripted operating system.
EXTENDS Entropy, TraceKit
Recs(r) == Tup([i \in 1..(Len(r) \div 6) |-> SubSeq(r, 6 * i - 5, 6 * i)])
\* fold over the records; c: monitor of the current call, seeded, number of returns, verdict
Run(api, r) ==
  LET step(c, i) ==
        LET x == Recs(r)[i + 1] IN
        IF c.why # "" THEN c
        ELSE IF x[1] = "R"
             THEN LET m == Return(c.m, api, c.seeded, x) IN
                  [m |-> Fresh, seeded |-> c.seeded \/ (x[5] = "1"), n |-> c.n + 1, why |-> m.why]
             ELSE LET m == Step(c.m, x) IN [c EXCEPT !.m = m, !.why = m.why]
  IN Iter(step, [m |-> Fresh, seeded |-> FALSE, n |-> 0, why |-> ""], Len(r) \div 6)
Exp(s, e) == LET v == Run(e.a[1], e.r) IN IF v.why # "" THEN v.why ELSE "a return for every call"
Ok(s, e) == /\ Len(e.r) >= 6 /\ Len(e.r) % 6 = 0
            /\ LET v == Run(e.a[1], e.r) IN v.why = "" /\ v.n = e.a[4]
Nxt(s, e) == s
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
