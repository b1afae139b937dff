SPECIFICATION FairSpec
CONSTANTS
  Points = {1, 2}
  MaxIter = 5
  MaxTries = 3
  Fault = "none"
INVARIANT Rules
CHECK_DEADLOCK FALSE
