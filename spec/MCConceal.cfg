CONSTANTS Unit = 1000 Totals = {0, 2, 6, 11, 15} Recovery = 5
INIT Init
NEXT Next
INVARIANTS TypeOK RepeatBound NoEndlessRepeat RunBound CounterIsRun MarksLegal MuteSaid RepeatSaid CleanIsNew AmbeRecovers ImbeRecovers RateBounded
CHECK_DEADLOCK FALSE
