SPECIFICATION FairSpec
CONSTANTS
  Points = {1, 2}
  MaxIter = 5
  MaxTries = 2
  MaxDamp = 3
  Fault = "none"
INVARIANT Rules
PROPERTY Terminates
CHECK_DEADLOCK FALSE
