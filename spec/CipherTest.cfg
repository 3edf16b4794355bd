INIT Init
NEXT Next
INVARIANTS Aes Des Bf Gf Inv
CHECK_DEADLOCK FALSE
