SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  Fault = "peek_candidate"
INVARIANT Rules
CHECK_DEADLOCK FALSE
