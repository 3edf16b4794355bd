INIT Init
NEXT Next
INVARIANTS Unique Tweaks Sound Cancel
