SPECIFICATION Spec
CONSTANTS
  Eps = "0"
  Depth = 5
  Dump = TRUE
  Flavours = {1, 2, 3, 4}
VIEW View
INVARIANTS Deterministic StepsShrink DampingBounded ModeMeaning FailuresBounded AcceptedDecrease PenaltyGrows RunBounded VerdictTrue
CHECK_DEADLOCK FALSE
