------------------------------ MODULE RngModel -----------------------------
(***************************************************************************)
(* Design of the global generator: one state per thread, seeded on first   *)
(* use and again when the process identity is not the one it was seeded    *)
(* under.  Actors are threads; a fork copies the forking thread's state    *)
(* into a new process.  An output is the pair (seed, position).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps, MaxActors
VARIABLES h, act, seeds, procs, outs, nout
vars == <<h, act, seeds, procs, outs, nout>>
Init == /\ h = <<>> /\ act = <<[proc |-> 1, seed |-> 0, pid |-> 0, pos |-> 0]>>
        /\ seeds = 0 /\ procs = 1 /\ outs = {} /\ nout = 0
Fork(a) == /\ Len(act) < MaxActors
           /\ procs' = procs + 1
           /\ act' = Append(act, [act[a] EXCEPT !.proc = procs'])
           /\ h' = Append(h, <<"f", a - 1, Len(act)>>) /\ UNCHANGED <<seeds, outs, nout>>
Thread(a) == /\ Len(act) < MaxActors
             /\ act' = Append(act, [proc |-> act[a].proc, seed |-> 0, pid |-> 0, pos |-> 0])
             /\ h' = Append(h, <<"t", a - 1, Len(act)>>) /\ UNCHANGED <<seeds, procs, outs, nout>>
Stale(x) == x.seed = 0 \/ x.pid # x.proc
Draw(a, c) == LET x == act[a]
                  y == IF Stale(x) THEN [x EXCEPT !.seed = seeds + 1, !.pid = x.proc, !.pos = 0] ELSE x
              IN /\ seeds' = IF Stale(x) THEN seeds + 1 ELSE seeds
                 /\ outs' = outs \cup {<<y.seed, y.pos>>} /\ nout' = nout + 1
                 /\ act' = [act EXCEPT ![a] = [y EXCEPT !.pos = @ + 1]]
                 /\ h' = Append(h, <<c, a - 1, 0>>) /\ UNCHANGED procs
Next == /\ Len(h) < MaxSteps
        /\ \E a \in 1..Len(act) : Fork(a) \/ Thread(a) \/ Draw(a, "b") \/ Draw(a, "w")
Unshared == Cardinality(outs) = nout
\* no two threads hold the same usable state
Separate == \A a, b \in 1..Len(act) : a # b /\ ~Stale(act[a]) /\ ~Stale(act[b]) => act[a].seed # act[b].seed
Report == Len(h) < MaxSteps \/ PrintT("H " \o ToString(h))
=============================================================================
