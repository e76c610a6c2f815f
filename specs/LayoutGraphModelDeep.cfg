SPECIFICATION Spec
CONSTANTS
    NX = 3
    NY = 3
    MaxChain = 8
    NumAnc = 3
INVARIANTS WalkSound ChainSound PlaceUnique
CHECK_DEADLOCK FALSE
