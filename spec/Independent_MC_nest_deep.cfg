SPECIFICATION Spec
CONSTANTS
  Static = {}
  PerThread = {}
  Programs <- One
  NestKinds <- All
  MaxNest = 3
  MaxDepth = 2
  MaxSwitch = 0
INVARIANTS Independence Mixtures
CHECK_DEADLOCK FALSE
