INIT Init
NEXT Next
INVARIANTS SameState SameText OnlyTonesDiffer ImbeSame
CHECK_DEADLOCK FALSE
