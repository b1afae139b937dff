SPECIFICATION Spec
CONSTANT MaxLen = 11
CONSTANT MaxScopes = 3
INVARIANT RecordedIffClosed
INVARIANT NoDuplicates
INVARIANT Consistent
INVARIANT Dump
CHECK_DEADLOCK FALSE
