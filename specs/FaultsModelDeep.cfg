SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Agree Listed
CHECK_DEADLOCK FALSE
