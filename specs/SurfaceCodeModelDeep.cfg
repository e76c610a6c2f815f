SPECIFICATION Spec
CONSTANTS MaxD = 4
INVARIANTS Met Noticed Growing
CHECK_DEADLOCK FALSE
