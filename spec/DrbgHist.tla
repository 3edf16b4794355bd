------------------------------ MODULE DrbgHist -----------------------------
(***************************************************************************)
(* Design level: two generators driven by calls whose inputs are classes   *)
(* (lengths), with outputs as uninterpreted terms over the history.  TLC   *)
(* enumerates every history up to MaxCalls; each is replayed with concrete *)
(* inputs.  Slot 2 starts as a copy of slot 1 taken at some point.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxCalls
VARIABLES h,      \* calls so far
          g,      \* per slot: the term that is its state ("none" until created)
          out     \* per slot: outputs returned so far
vars == <<h, g, out>>
Lens == {0, 1, 2, 3}      \* none, part of a block, one block, several and a part
Adds == {0, 1, 2}         \* none, short, long
Init == h = <<>> /\ g = <<<<"init">>, <<>>>> /\ out = <<<<>>, <<>>>>
Live(k) == g[k] # <<>>
Reseed(k, a) == /\ Live(k)
                /\ g' = [g EXCEPT ![k] = <<"reseed", @, a>>]
                /\ h' = Append(h, <<"r", k, a, 0>>) /\ UNCHANGED out
Gen(k, n, a) == /\ Live(k)
                /\ g' = [g EXCEPT ![k] = <<"gen", @, n, a>>]
                /\ out' = [out EXCEPT ![k] = Append(@, <<"bytes", g[k], n, a>>)]
                /\ h' = Append(h, <<"g", k, n, a>>)
Copy == /\ ~Live(2)
        /\ g' = [g EXCEPT ![2] = g[1]] /\ out' = [out EXCEPT ![2] = out[1]]
        /\ h' = Append(h, <<"c", 2, 0, 0>>)
Next == Len(h) < MaxCalls /\ \/ \E k \in {1, 2}, a \in Adds : Reseed(k, a)
                             \/ \E k \in {1, 2}, n \in Lens, a \in Adds : Gen(k, n, a)
                             \/ Copy
\* outputs are a function of the history of the slot: equal states have equal output histories
Deterministic == (Live(2) /\ g[1] = g[2]) => out[1] = out[2]
Report == Len(h) < MaxCalls \/ PrintT(<<"H", h>>)
=============================================================================
