CONSTANT Lengths2 <- AllLengths
INIT Init
NEXT Next
INVARIANT SpectraContract
INVARIANT MachineForgets
CHECK_DEADLOCK FALSE
