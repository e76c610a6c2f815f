SPECIFICATION Spec
CONSTANTS
    Fault = "shared"
    MaxLen = 6
INVARIANTS Quiet Functional
CHECK_DEADLOCK FALSE
