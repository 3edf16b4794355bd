----------------------------- MODULE ConstTrace ----------------------------
(***************************************************************************)
(* Recorded observations of the instrumented library.                      *)
(*                                                                         *)
(* The results of an event are what the operation returned, a bar, and its *)
(* observation: the number of basic blocks entered and addresses touched,  *)
(* and digests of the sequence of them.  The abstract state maps the       *)
(* public part of a run to the observation it must have; a run with a      *)
(* public part not seen before fixes it.                                   *)
(***************************************************************************)
EXTENDS TraceKit, FiniteSets

\* positions of secret arguments (0 is the operation itself)
Secret(op) ==
  CASE op \in {"u_equal", "u_cmp", "u_xor", "u_xor3"} -> {1, 2}
    [] op = "u_unpad" -> {1}
    [] op \in {"w_tadd", "w_tmul", "w_xtadd", "w_xtmul", "e_sadd", "e_smul", "e_signs", "e_signa", "e_signm", "r_tadd", "r_tmul"} -> {2, 3}
    [] op \in {"a_poly"} -> {1, 2}
    [] op \in {"a_chacha", "a_salsa", "a_box"} -> {1, 3}      \* key and text
    [] op = "a_hmac" -> {2, 3}
    [] op = "a_open" -> {7}                                   \* the tag
    [] op \in {"l_select", "l_swap", "l_zero", "l_cadd", "l_csub", "l_cneg"} -> {1, 2, 3}
    [] op \in {"l_sadd", "l_ssub", "l_sadd1", "l_ssub1", "l_pred", "l_tab"} -> {1, 2}
    [] op = "l_powm" -> {1, 2}
    [] op = "l_inv" -> {1}
    [] op \in {"k_dec", "k_deckey", "k_decoaep", "k_sign"} -> {1, 2}  \* the ciphertext stands for what it hides
    [] op \in {"k_dsign", "k_dderive"} -> {1}
    [] op \in {"z_branch", "z_index"} -> {1}
    [] op = "z_memcmp" -> {1, 2}
    [] OTHER -> {2}                                           \* the private key

\* operations whose verdict or result length the caller sees and may act on
Verdict(op) == op \notin {"u_equal", "u_cmp", "u_unpad", "e_szero", "k_deckey"}
Length(op) == op \in {"k_dec", "k_decoaep"}

RECURSIVE BarFrom(_, _)
BarFrom(r, i) == IF r[i] = "|" THEN i ELSE BarFrom(r, i + 1)
Bar(e) == BarFrom(e.r, 1)
Recorded(e) == \E i \in 1..Len(e.r) : e.r[i] = "|"
Obs(e) == SubSeq(e.r, Bar(e) + 1, Len(e.r))

\* a secret argument is seen by its length only
Seen(op, a) == [i \in 1..Len(a) |-> IF i \in Secret(op) THEN <<"secret", Len(a[i])>> ELSE <<"public", a[i]>>]
Public(e) == <<e.op, Seen(e.op, e.a),
               IF Verdict(e.op) THEN e.r[1] ELSE "",
               IF Length(e.op) THEN Len(e.r[2]) ELSE 0>>

Known(s, e) == {x \in s : x[1] = Public(e)}
Exp(s, e) == IF Recorded(e) /\ Known(s, e) # {} THEN (CHOOSE x \in Known(s, e) : TRUE)[2] ELSE <<"an observation">>
Ok(s, e) == Recorded(e) /\ (Known(s, e) = {} \/ \A x \in Known(s, e) : x[2] = Obs(e))
Nxt(s, e) == IF Known(s, e) = {} THEN s \cup {<<Public(e), Obs(e)>>} ELSE s
TraceInit == TInit({})
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
