SPECIFICATION Spec
CONSTANTS
  Eps = "0"
  Depth = 6
  Dump = FALSE
  Flavours = {1, 2, 3, 4, 5}
VIEW View
INVARIANTS Deterministic StepsShrink DampingBounded ModeMeaning FailuresBounded AcceptedDecrease PenaltyGrows RunBounded VerdictTrue
CHECK_DEADLOCK FALSE
