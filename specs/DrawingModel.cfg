SPECIFICATION Spec
INVARIANTS Refused Once Colours Subset Live
CHECK_DEADLOCK FALSE
