SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  RowCounts = {2}
  Dump = TRUE
  Second = TRUE
  Kinds = {"hessian", "jacobian"}
INVARIANTS NormalEquations RightHandSide Frame OrderFree Commute
