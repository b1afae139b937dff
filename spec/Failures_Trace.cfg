SPECIFICATION Spec
INVARIANT Outcome
CHECK_DEADLOCK FALSE
