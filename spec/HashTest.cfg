INIT Init
NEXT Next
CONSTANT Lens = {0, 1, 3, 55, 56, 64, 111, 112, 127, 128, 129, 135, 136, 137, 200}
INVARIANTS Agree KAgree SizeOk Dump
