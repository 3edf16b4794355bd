------------------------------ MODULE TraceKit -----------------------------
(***************************************************************************)
(* Validation of recorded executions.                                      *)
(*                                                                         *)
(* VT_TRACE names a JSON file: a sequence of traces, each a sequence of    *)
(* events [op, a, r]: the call made on the implementation, its arguments   *)
(* (byte strings in hexadecimal) and the results it returned (texts).      *)
(* There is one behaviour per trace; an event is a step that the           *)
(* specification allows only with the recorded results.  The module that   *)
(* extends this one gives the expected results Exp(s, e) of an event in    *)
(* abstract state s, the acceptance condition and the next state.          *)
(***************************************************************************)
EXTENDS Words, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.VT_TRACE)
NoMoreEvents == 1000000

VARIABLES tid,    \* which trace
          pos,    \* next event
          st      \* abstract state of the specification

tvars == <<tid, pos, st>>

TInit(init) == tid \in 1..Len(Traces) /\ pos = 1 /\ st = init

\* one event: accepted (with the next state) or rejected (reported, trace abandoned)
TNext(ok(_, _), nxt(_, _), exp(_, _)) ==
  /\ pos <= Len(Traces[tid])
  /\ LET e == Traces[tid][pos] IN
       IF ok(st, e)
       THEN st' = nxt(st, e) /\ pos' = pos + 1
       ELSE /\ PrintT("REJECT " \o ToString(tid) \o " " \o ToString(pos) \o " " \o ToString(exp(st, e)))
            /\ pos' = NoMoreEvents
            /\ st' = st
  /\ tid' = tid

N(i) == ToString(i)
B01(b) == IF b THEN "1" ELSE "0"
OK == <<"ok">>
=============================================================================
