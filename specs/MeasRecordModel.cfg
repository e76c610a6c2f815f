SPECIFICATION CheckSpec
CONSTANTS
    Qubits = {"a", "b", "c"}
    MaxMeas = 7
    MaxList = 4
    MaxLen = 8
    MinLen = 0
INVARIANTS Refines Counts Distinct
CHECK_DEADLOCK FALSE
