SPECIFICATION Spec
INVARIANTS Forgets Print1
PROPERTY NoMix
CHECK_DEADLOCK FALSE
