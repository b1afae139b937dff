SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  MaxDamp = 2
  Fault = "last_iteration_moves"
INVARIANT Rules
CHECK_DEADLOCK FALSE
