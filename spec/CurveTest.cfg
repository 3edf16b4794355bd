INIT Init
NEXT Next
INVARIANTS Wei1 Te1 Mt1 Real1 RealTe1 RealMt1 Root1
