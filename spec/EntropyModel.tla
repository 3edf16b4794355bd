---------------------------- MODULE EntropyModel ---------------------------
(***************************************************************************)
(* Design of the request for system randomness against an operating system *)
(* that may interrupt, shorten, delay or refuse every call.  Sizes are in  *)
(* half chunks (the system call is asked for at most one chunk of two      *)
(* halves at a time).  TLC enumerates every sequence of outcomes with at   *)
(* most MaxFaults faults; the complete ones are replayed into the library. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, MaxFaults
VARIABLES pc, size, left, q, nf, fds, filled, ret, scale
vars == <<pc, size, left, q, nf, fds, filled, ret, scale>>

\* q: outcomes consumed per kind of call, in order
Kinds == {"g", "o", "s", "p", "r", "c", "f", "y"}
Init == /\ pc = "sys" /\ size \in Sizes /\ left = size /\ q = [k \in Kinds |-> <<>>] /\ nf = 0
        /\ fds = 0 /\ filled = "none" /\ ret = -1 /\ scale = 0
Out(k, o, fault) == /\ nf + fault <= MaxFaults /\ nf' = nf + fault
                    /\ q' = [q EXCEPT ![k] = Append(@, o)]
Same(v) == UNCHANGED v
Min(a, b) == IF a < b THEN a ELSE b

\* the system call
Sys == pc = "sys" /\
  \/ /\ Out("g", "all", 0) /\ left' = left - Min(2, left) /\ filled' = "sys"
     /\ IF left' = 0 THEN pc' = "done" /\ ret' = 1 ELSE pc' = "sys" /\ UNCHANGED ret
     /\ UNCHANGED <<size, fds, scale>>
  \/ /\ left >= 2 /\ Out("g", "short", 1) /\ left' = left - 1 /\ filled' = "sys" /\ pc' = "sys" /\ UNCHANGED <<size, fds, ret, scale>>
  \/ \E o \in {"i", "a"} : Out("g", o, 1) /\ pc' = "sys" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
  \/ \E o \in {"n", "e"} : Out("g", o, 0) /\ pc' = "openr" /\ left' = size /\ filled' = "none" /\ UNCHANGED <<size, fds, ret, scale>>
\* wait on the blocking device, then use the other one
OpenFails(next) == \/ Out("o", "i", 1) /\ pc' = pc /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
                   \/ \E o \in {"m", "p"} : Out("o", o, 1) /\ pc' = "uuid" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
\* without close-on-exec at open, the flag is set afterwards; failure of that is tolerated
OpenOld(next) == \E f \in {<<"ok">>, <<"e">>} :
                   /\ nf + 1 <= MaxFaults /\ nf' = nf + 1
                   /\ q' = [q EXCEPT !["o"] = @ \o <<"v", "ok">>, !["f"] = @ \o f]
                   /\ fds' = fds + 1 /\ pc' = next /\ UNCHANGED <<size, left, filled, ret, scale>>
OpenOk(next) == Out("o", "ok", 0) /\ fds' = fds + 1 /\ pc' = next /\ UNCHANGED <<size, left, filled, ret, scale>>
Close(next) == \/ Out("c", "0", 0) /\ fds' = fds - 1 /\ pc' = next /\ UNCHANGED <<size, left, filled, ret, scale>>
               \/ Out("c", "i", 1) /\ fds' = fds - 1 /\ pc' = next /\ UNCHANGED <<size, left, filled, ret, scale>>
Stat(next, bad) == \/ Out("s", "c", 0) /\ pc' = next /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
                   \/ \E o \in {"e", "f"} : Out("s", o, 1) /\ pc' = bad /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
OpenR == pc = "openr" /\ (OpenOk("statr") \/ OpenOld("statr") \/ OpenFails("statr"))
StatR == pc = "statr" /\ Stat("poll", "failr")
FailR == pc \in {"failr", "failu"} /\ Close("uuid")
Poll == pc = "poll" /\
  \/ Out("p", "1", 0) /\ pc' = "closer" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
  \/ \E o \in {"i", "a"} : Out("p", o, 1) /\ pc' = "poll" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
  \/ \E o \in {"e", "0"} : Out("p", o, 1) /\ pc' = "failr" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
CloseR == pc = "closer" /\ Close("openu")
OpenU == pc = "openu" /\ (OpenOk("statu") \/ OpenOld("statu") \/ OpenFails("statu"))
StatU == pc = "statu" /\ Stat("read", "failu")
Read == pc = "read" /\
  \/ Out("r", "all", 0) /\ left' = 0 /\ filled' = "dev" /\ pc' = "closeu" /\ UNCHANGED <<size, fds, ret, scale>>
  \/ left >= 2 /\ Out("r", "short", 1) /\ left' = left - 1 /\ filled' = "dev" /\ pc' = "read" /\ UNCHANGED <<size, fds, ret, scale>>
  \/ \E o \in {"i", "a"} : Out("r", o, 1) /\ pc' = "read" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
  \/ \E o \in {"e", "0"} : Out("r", o, 1) /\ pc' = "failu" /\ UNCHANGED <<size, left, fds, filled, ret, scale>>
CloseU == pc = "closeu" /\ (\/ Out("c", "0", 0) \/ Out("c", "i", 1))
          /\ fds' = fds - 1 /\ pc' = "done" /\ ret' = 1 /\ UNCHANGED <<size, left, filled, scale>>
\* last resort: identifiers made by the kernel
Uuid == pc = "uuid" /\
  \/ Out("y", "u", 1) /\ left' = 0 /\ filled' = "uuid" /\ ret' = 1 /\ pc' = "done" /\ UNCHANGED <<size, fds, scale>>
  \/ \E o \in {"n", "us"} : Out("y", o, 0) /\ left' = left /\ filled' = "zero" /\ ret' = 0 /\ pc' = "done" /\ UNCHANGED <<size, fds, scale>>
Next == Sys \/ OpenR \/ StatR \/ FailR \/ Poll \/ CloseR \/ OpenU \/ StatU \/ Read \/ CloseU \/ Uuid

Truthful == pc = "done" => (ret = 1 => left = 0 /\ filled \in {"sys", "dev", "uuid"}) /\ (ret = 0 => filled = "zero")
NoLeak == pc \in {"done", "uuid"} => fds = 0
OneDescriptor == fds \in 0..1
Report == pc # "done" \/ PrintT("S " \o ToString(<<size, ret, q["g"], q["o"], q["s"], q["p"], q["r"], q["c"], q["f"], q["y"]>>))
=============================================================================
