SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  Fault = "eig_in_place"
INVARIANT Rules
CHECK_DEADLOCK FALSE
