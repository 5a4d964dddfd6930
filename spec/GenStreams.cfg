SPECIFICATION Spec
INVARIANTS Isolated Print1
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
