SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  MaxDamp = 2
  Fault = "tolerance_accepts"
INVARIANT Rules
CHECK_DEADLOCK FALSE
