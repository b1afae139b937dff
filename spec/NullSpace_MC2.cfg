SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Dump = TRUE
  GVals = {"-1", "0", "2"}
  RowSet = "all"
  MaxRows = 2
  Dim = 2
INVARIANTS SuccessMeansConvex FailureMeansNot SolutionIsMinimiser RulesHold VerdictAllowed Redundant Unique
