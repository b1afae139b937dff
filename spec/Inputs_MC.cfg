SPECIFICATION Spec
CONSTANT MaxDev = 2
CONSTANT MaxCalls = 4
INVARIANT TableMatchesChecks
INVARIANT DefaultsValid
INVARIANT OnlyValidHeld
INVARIANT Dump
PROPERTY RejectedChangesNothing
CHECK_DEADLOCK FALSE
