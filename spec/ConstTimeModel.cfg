CONSTANT Bits = 3
INIT Init
NEXT Next
INVARIANTS SameLeak HaltTogether Exact
