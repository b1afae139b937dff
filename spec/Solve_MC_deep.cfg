SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  Family = "large"
  Dump = TRUE
  Fault = "none"
INVARIANTS SolvesWellPosed KnownVerdict Bounded Inside DampingInRange Print1
PROPERTIES Terminates MeritFalls PenaltyGrows
CHECK_DEADLOCK FALSE
