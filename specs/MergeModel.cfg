SPECIFICATION Spec
CONSTANTS
    Len1 = 3
    Len2 = 2
    Deep = FALSE
INVARIANTS Sound Complete Exact AllReached
CHECK_DEADLOCK FALSE
