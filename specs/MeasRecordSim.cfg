SPECIFICATION Spec
CONSTANTS
    Qubits = {"a", "b", "c"}
    MaxMeas = 30
    MaxList = 3
    MaxLen = 10
    MinLen = 0
INVARIANTS Dump
CHECK_DEADLOCK FALSE
