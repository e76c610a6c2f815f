SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Agree Listed
CHECK_DEADLOCK FALSE
