SPECIFICATION Spec
CONSTANTS
  Static = {}
  PerThread = {"err"}
  Programs <- One
  NestKinds <- All
  MaxNest = 2
  MaxDepth = 2
  MaxSwitch = 0
INVARIANTS Independence
CHECK_DEADLOCK FALSE
