SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  RowCounts = {1, 2, 3}
  Dump = TRUE
  Second = FALSE
  Kinds = {"hessian", "jacobian", "error", "quadratic"}
INVARIANTS NormalEquations RightHandSide Frame OrderFree Commute
