SPECIFICATION Spec
CONSTANTS MaxD = 3
INVARIANTS Met Noticed Growing
CHECK_DEADLOCK FALSE
