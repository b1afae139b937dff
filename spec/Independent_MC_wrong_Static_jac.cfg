SPECIFICATION Spec
CONSTANTS
  Static = {"jac"}
  PerThread = {}
  Programs <- Two
  NestKinds <- None
  MaxNest = 0
  MaxDepth = 0
  MaxSwitch = 4
INVARIANTS Independence
CHECK_DEADLOCK FALSE
