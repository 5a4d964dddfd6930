SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Seeds = {"0", "a", "b"}
INVARIANTS TypeOK OverrideNeedsSeed PrintHist
PROPERTY Isolation
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
