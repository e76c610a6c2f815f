SPECIFICATION Spec
CONSTANTS
    Fault = "trace"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
