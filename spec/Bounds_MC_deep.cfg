SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Dump = TRUE
  Depth = 3
  As = {"-2", "-1", "0", "1", "3", "1/2", "-1/8"}
  Bs = {"-2", "-1/2", "0", "1", "5/4"}
  Ps = {"-1", "0", "3/4", "2"}
INVARIANTS Printed Sides Translated Composes ClampIsProjection RulesHold
