SPECIFICATION Spec
CONSTANTS
    Fault = "none"
    Shots = 3
    MaxA = 3
    MaxD = 3
    MaxR = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
