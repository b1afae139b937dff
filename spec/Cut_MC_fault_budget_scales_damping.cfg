SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  MaxIter = 3
  MaxTries = 2
  MaxDamp = 2
  Fault = "budget_scales_damping"
INVARIANT Rules
CHECK_DEADLOCK FALSE
