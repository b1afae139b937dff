SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  RowCounts = {1, 2}
  Dump = TRUE
  Second = TRUE
  Kinds = {"hessian", "jacobian", "error", "quadratic"}
INVARIANTS NormalEquations RightHandSide Frame OrderFree Commute
