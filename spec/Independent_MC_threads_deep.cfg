SPECIFICATION Spec
CONSTANTS
  Static = {}
  PerThread = {}
  Programs <- Two
  NestKinds <- None
  MaxNest = 0
  MaxDepth = 0
  MaxSwitch = 6
INVARIANTS Independence Mixtures
CHECK_DEADLOCK FALSE
