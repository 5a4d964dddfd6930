SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Parts = 7
INVARIANTS TypeOK Bounded PrintHist
PROPERTIES Kept Heard Own Recovers
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
