SPECIFICATION Spec
CONSTANTS
    NX = 3
    NY = 2
    MaxChain = 5
    NumAnc = 3
INVARIANTS WalkSound ChainSound PlaceUnique
CHECK_DEADLOCK FALSE
