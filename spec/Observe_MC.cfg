SPECIFICATION FairSpec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  Fault = "none"
INVARIANT Rules
PROPERTY Terminates
CHECK_DEADLOCK FALSE
