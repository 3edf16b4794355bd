INIT Init
NEXT Next
INVARIANTS Commutes Back Agree
