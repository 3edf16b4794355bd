--------------------------- MODULE ConstTimeModel --------------------------
(* Two runs side by side that agree on the public input.                   *)
EXTENDS ConstTime
VARIABLES kind, pub, one, two, m1, m2
vars == <<kind, pub, one, two, m1, m2>>

\* equality of observations is transitive, so one run may be fixed
Fixed(k) == CHOOSE s \in Secrets(k) : TRUE

Init == /\ kind \in Kinds
        /\ pub \in Publics(kind)
        /\ one = Fixed(kind)
        /\ two \in Secrets(kind)
        /\ m1 = Start(Mem(kind, pub, one))
        /\ m2 = Start(Mem(kind, pub, two))
Next == /\ ~Halted(Prog(kind), m1)
        /\ m1' = Step(Prog(kind), m1)
        /\ m2' = Step(Prog(kind), m2)
        /\ UNCHANGED <<kind, pub, one, two>>

SameLeak == Leak(Prog(kind), m1) = Leak(Prog(kind), m2)
HaltTogether == Halted(Prog(kind), m1) <=> Halted(Prog(kind), m2)
Exact == /\ Halted(Prog(kind), m2) => m2.reg.out = Meaning(kind, pub, two)
         /\ Halted(Prog(kind), m1) => m1.reg.out = Meaning(kind, pub, one)

\* the leaking counterparts compute the same results and are told apart
Run(k, p, s) == Start(Mem(k, p, s))
ASSUME \A k \in Leaky : \A p \in Publics(k) :
         /\ \A s \in Secrets(k) : Result(Prog(k), Run(k, p, s)).reg.out = Meaning(k, p, s)
         /\ \E s, t \in Secrets(k) : Observe(Prog(k), Run(k, p, s)) # Observe(Prog(k), Run(k, p, t))
=============================================================================
