INIT Init
NEXT Next
INVARIANTS Signed Exact
