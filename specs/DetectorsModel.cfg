SPECIFICATION Spec
CONSTANTS
    N = 2
    MaxLen = 6
    MinLen = 0
    Frame = "post-gate"
    Reset = FALSE
    Keep = FALSE
    Weight = 1
INVARIANTS Physical TypeOK InverseOK
CHECK_DEADLOCK FALSE
