SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Dump = TRUE
  GVals = {"0", "1"}
  RowSet = "axis"
  MaxRows = 2
  Dim = 3
INVARIANTS SuccessMeansConvex FailureMeansNot SolutionIsMinimiser RulesHold VerdictAllowed Redundant Unique
