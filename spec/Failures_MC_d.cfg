SPECIFICATION Spec
CONSTANTS
  Costs = {1}
  Equalities = {2}
  Retraction = FALSE
  Callback = FALSE
  MaxIter = 2
  MaxTries = 1
  Fault = "none"
INVARIANTS RaisedRight NothingHidden Done Groups Legal
CHECK_DEADLOCK FALSE
