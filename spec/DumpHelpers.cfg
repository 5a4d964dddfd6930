INIT Init
NEXT Next
INVARIANTS Ordered Monotone
CHECK_DEADLOCK FALSE
