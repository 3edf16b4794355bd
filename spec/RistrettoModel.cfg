INIT Init
NEXT Next
INVARIANTS Unique Canonical Count Maps Inverse
