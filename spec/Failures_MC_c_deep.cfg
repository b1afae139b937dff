SPECIFICATION Spec
CONSTANTS
  Costs = {1, 2}
  Equalities = {3}
  Retraction = TRUE
  Callback = FALSE
  MaxIter = 2
  MaxTries = 1
  Fault = "none"
INVARIANTS RaisedRight NothingHidden Done Groups Legal
CHECK_DEADLOCK FALSE
