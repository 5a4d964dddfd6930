INIT TraceInit
NEXT TraceNext
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
