SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Family = "ip"
INVARIANT Memoryless
INVARIANT Histories
INVARIANT Distinguished
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
