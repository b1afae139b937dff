SPECIFICATION Spec
CONSTANTS
  Static = {}
  PerThread = {}
  Programs <- One
  NestKinds <- All
  MaxNest = 2
  MaxDepth = 2
  MaxSwitch = 0
INVARIANTS Independence Mixtures
CHECK_DEADLOCK FALSE
