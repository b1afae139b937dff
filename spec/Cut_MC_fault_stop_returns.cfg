SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  MaxDamp = 2
  Fault = "stop_returns"
INVARIANT Rules
CHECK_DEADLOCK FALSE
