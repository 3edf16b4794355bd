INIT Init
NEXT Next
INVARIANTS Maps Inverse
