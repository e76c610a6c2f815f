SPECIFICATION Spec
CONSTANTS
    Fault = "stale"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
