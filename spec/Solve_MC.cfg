SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  Family = "small"
  Dump = TRUE
  Fault = "none"
INVARIANTS SolvesWellPosed KnownVerdict Bounded Inside DampingInRange Print1
PROPERTIES Terminates MeritFalls PenaltyGrows
CHECK_DEADLOCK FALSE
