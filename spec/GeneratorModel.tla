-------------------------- MODULE GeneratorModel ---------------------------
(***************************************************************************)
(* What an intruder learns who sees the whole state of the generator at    *)
(* one moment.  Keys and pieces of keystream are symbols: key k gives the  *)
(* stream of key k and key k+1, and nothing leads back.  Erase and Rekey   *)
(* are the two rules of the design; without either of them earlier output  *)
(* is recovered (the counterexamples are demanded by the check).           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps, PoolSize, Erase, Rekey
VARIABLES h, key, pool, pos, given
vars == <<h, key, pool, pos, given>>
Init == h = <<>> /\ key = 1 /\ pool = {} /\ pos = 0 /\ given = {}
NextKey == IF Rekey THEN key + 1 ELSE key
Bytes == /\ given' = given \cup {<<key, "b">>} /\ key' = NextKey /\ UNCHANGED <<pool, pos>>
         /\ h' = Append(h, "b")
TakeWord == LET p == IF pos = 0 THEN {<<key, i>> : i \in 1..PoolSize} ELSE pool
            k == IF pos = 0 THEN PoolSize ELSE pos
            w == IF pos = 0 THEN <<key, k>> ELSE CHOOSE x \in pool : x[2] = k
        IN /\ given' = given \cup {w} /\ pool' = (IF Erase THEN p \ {w} ELSE p)
           /\ pos' = k - 1 /\ key' = (IF pos = 0 THEN NextKey ELSE key) /\ h' = Append(h, "w")
\* seeding again forgets everything
Reseed == /\ key' = key + 100 /\ pool' = {} /\ pos' = 0 /\ UNCHANGED given /\ h' = Append(h, "r") /\ Len(h) > 0
Next == Len(h) < MaxSteps /\ (Bytes \/ TakeWord \/ Reseed)
Derivable(x) == x \in pool \/ x[1] >= key
Forward == \A x \in given : ~Derivable(x)
Report == Len(h) < MaxSteps \/ PrintT("H " \o ToString(h))
=============================================================================
