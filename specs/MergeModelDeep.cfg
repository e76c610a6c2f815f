SPECIFICATION Spec
CONSTANTS
    Len1 = 4
    Len2 = 2
    Deep = TRUE
INVARIANTS Sound Complete Exact AllReached
CHECK_DEADLOCK FALSE
