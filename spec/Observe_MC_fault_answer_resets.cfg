SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  Fault = "answer_resets"
INVARIANT Rules
CHECK_DEADLOCK FALSE
