SPECIFICATION Spec
CONSTANTS
    Fault = "dirty"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
