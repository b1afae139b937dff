SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  Family = "small"
  Dump = FALSE
  Fault = "penalty_fixed"
INVARIANTS SolvesWellPosed
CHECK_DEADLOCK FALSE
