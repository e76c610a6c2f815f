SPECIFICATION Spec
INVARIANTS Total Bias NumBiased NoBias DecayOK
CHECK_DEADLOCK FALSE
