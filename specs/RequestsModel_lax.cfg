SPECIFICATION Spec
CONSTANTS
    Fault = "lax"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
