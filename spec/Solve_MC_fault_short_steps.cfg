SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  Family = "small"
  Dump = FALSE
  Fault = "short_steps"
INVARIANTS SolvesWellPosed
CHECK_DEADLOCK FALSE
