--------------------------- MODULE ResidueModel ----------------------------
(***************************************************************************)
(* An operation on a secret and the memory it works in.  Variables come    *)
(* into being on the stack or from the allocator, take copies of the       *)
(* secret (variable 0 belongs to the caller and holds it), may be moved    *)
(* when they grow, and end.  The two rules of the design: a variable that  *)
(* ever held the secret is erased before it ends (Erase), and so is the    *)
(* old place of one that is moved (Grow).  Then dead memory holds nothing. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps, Vars, Erase, Grow
VARIABLES live,    \* variables in existence -> place
          holds,   \* places that hold the secret
          tainted, \* variables that ever held it
          next, n
vars == <<live, holds, tainted, next, n>>
Init == live = (0 :> 0) /\ holds = {0} /\ tainted = {0} /\ next = 1 /\ n = 0
Step == n < MaxSteps /\ n' = n + 1
New(v) == /\ Step /\ v \notin DOMAIN live /\ live' = (v :> next) @@ live /\ next' = next + 1
          /\ tainted' = tainted \ {v} /\ UNCHANGED holds
Copy(u, v) == /\ Step /\ u # v /\ v # 0 /\ {u, v} \subseteq DOMAIN live
              /\ holds' = IF live[u] \in holds THEN holds \cup {live[v]} ELSE holds \ {live[v]}
              /\ tainted' = IF live[u] \in holds THEN tainted \cup {v} ELSE tainted
              /\ UNCHANGED <<live, next>>
Move(v) == /\ Step /\ v # 0 /\ v \in DOMAIN live /\ live' = [live EXCEPT ![v] = next] /\ next' = next + 1
           /\ holds' = (IF Grow THEN holds \ {live[v]} ELSE holds) \cup (IF live[v] \in holds THEN {next} ELSE {})
           /\ UNCHANGED tainted
End(v) == /\ Step /\ v # 0 /\ v \in DOMAIN live /\ live' = [u \in DOMAIN live \ {v} |-> live[u]]
          /\ holds' = IF Erase /\ v \in tainted THEN holds \ {live[v]} ELSE holds
          /\ UNCHANGED <<tainted, next>>
Next == \E u \in 0..Vars, v \in 1..Vars : New(v) \/ Copy(u, v) \/ Move(v) \/ End(v)
Places == {live[v] : v \in DOMAIN live}
Clean == holds \subseteq Places
=============================================================================
