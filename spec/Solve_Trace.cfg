SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  Fault = "none"
INVARIANT Outcome
CHECK_DEADLOCK FALSE
