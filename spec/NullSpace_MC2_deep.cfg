SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Dump = TRUE
  GVals = {"-1", "0", "1", "2"}
  RowSet = "all"
  MaxRows = 3
  Dim = 2
INVARIANTS SuccessMeansConvex FailureMeansNot SolutionIsMinimiser RulesHold VerdictAllowed Redundant Unique
