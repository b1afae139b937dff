SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  Fault = "told_is_moved"
INVARIANT Rules
CHECK_DEADLOCK FALSE
