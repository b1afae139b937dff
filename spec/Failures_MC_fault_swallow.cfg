SPECIFICATION Spec
CONSTANTS
  Costs = {1}
  Equalities = {2}
  Retraction = TRUE
  Callback = TRUE
  MaxIter = 2
  MaxTries = 1
  Fault = "swallow"
INVARIANTS Rules
CHECK_DEADLOCK FALSE
