SPECIFICATION Spec
CONSTANTS
  Static = {}
  PerThread = {}
  Programs <- Three
  NestKinds <- None
  MaxNest = 0
  MaxDepth = 0
  MaxSwitch = 4
INVARIANTS Independence Mixtures
CHECK_DEADLOCK FALSE
