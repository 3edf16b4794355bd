--------------------------- MODULE ResidueTrace ----------------------------
(***************************************************************************)
(* What recorded operations gave back to the allocator.  The arguments     *)
(* after those that the operation takes are the secrets it works with:     *)
(* parts of private keys and the numbers they come from, decrypted texts,  *)
(* passwords.  The results are what the operation returned, a bar, the     *)
(* number of blocks given back, and pairs: an argument and the number of   *)
(* copies of its pieces found in those blocks.  Argument 99 is what        *)
(* randomising has put into a curve.                                       *)
(***************************************************************************)
EXTENDS TraceKit, FiniteSets

\* arguments that the operation takes
Takes(op) ==
  CASE op \in {"k_rpub", "k_rverify", "k_rbits", "k_rexport", "k_dpub", "k_dverify", "k_dbits", "k_dimport", "k_dexport", "k_dparams",
               "z_free", "z_grow"} -> 1
    [] op \in {"k_dgen", "k_dderive", "k_wend", "k_eend", "w_create", "w_export", "w_xcreate", "m_create",
               "e_create", "e_expand", "e_convert"} -> 2
    [] op \in {"k_sign", "k_rpss", "k_dec", "k_dsign", "w_sign", "w_bsign", "w_derive", "m_derive"} -> 3
    [] op \in {"k_deckey", "k_decoaep", "w_xsign"} -> 4
    [] op \in {"k_scrypt", "e_sign"} -> 5
Bars(e) == {i \in 1..Len(e.r) : e.r[i] = "|"}
Bar(e) == CHOOSE i \in Bars(e) : TRUE
Parts(e) == {<<SInt(e.r[i]), e.r[i + 1]>> : i \in {j \in (Bar(e) + 2)..Len(e.r) : (j - Bar(e)) % 2 = 0}}
Recorded(e) == Cardinality(Bars(e)) = 1
\* the observer looked for every secret: arguments are in hexadecimal, pieces have 16 bytes
Secrets(e) == IF e.op \in {"k_wend", "k_eend"} THEN {99} ELSE {a \in (Takes(e.op) + 1)..Len(e.a) : Len(e.a[a]) >= 32}
Looked(e) == Secrets(e) \subseteq {p[1] : p \in Parts(e)}
Left(e) == {p[1] : p \in {q \in Parts(e) : q[1] > Takes(e.op) /\ q[2] # "0"}}

Exp(s, e) == IF ~Recorded(e) THEN <<"an observation">>
             ELSE IF ~Looked(e) THEN <<"a search for every secret">>
             ELSE <<"no copy of the arguments", Left(e)>>
Ok(s, e) == Recorded(e) /\ Looked(e) /\ Left(e) = {}
Nxt(s, e) == s
TraceInit == TInit(0)
TraceNext == TNext(Ok, Nxt, Exp)
=============================================================================
