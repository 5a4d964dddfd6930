CONSTANTS Unit = 20000 Totals = {0, 1, 2, 3, 5, 6, 9, 10, 11, 12, 13, 14, 15} Recovery = 5
INIT Init
NEXT Next
INVARIANTS TypeOK RepeatBound NoEndlessRepeat RunBound CounterIsRun MarksLegal MuteSaid RepeatSaid CleanIsNew AmbeRecovers ImbeRecovers RateBounded
CHECK_DEADLOCK FALSE
