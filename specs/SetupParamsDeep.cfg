SPECIFICATION Spec
CONSTANTS
    Params = {"cz_error_prob", "tq_error_prob", "T1"}
    Nums = {1}
    Vars = {"u", "w"}
INVARIANTS Declarative Fails Resolved Registered FrameParam FrameVar
CHECK_DEADLOCK FALSE
