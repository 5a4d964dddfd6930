CONSTANT Lengths2 = {9, 15, 16, 24, 25, 37, 56}
INIT Init
NEXT Next
INVARIANT SpectraContract
INVARIANT MachineForgets
CHECK_DEADLOCK FALSE
