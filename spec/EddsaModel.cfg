INIT Init
NEXT Next
INVARIANTS Cofactored Mixed Encodings Sound
