SPECIFICATION Spec
CONSTANT Eps = "0x1p-52"
INVARIANT Outcome
CHECK_DEADLOCK FALSE
