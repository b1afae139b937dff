SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  RowCounts = {1, 3}
  Dump = TRUE
  Second = TRUE
  Kinds = {"hessian", "jacobian"}
INVARIANTS NormalEquations RightHandSide Frame OrderFree Commute
