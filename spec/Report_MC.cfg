SPECIFICATION Spec
CONSTANT MaxLen = 1
CONSTANT Tries = {0, 1, 2}
CONSTANT Inners = {0, 1, 2}
INVARIANT Agree
INVARIANT Inverse
INVARIANT Additive
INVARIANT Dump
CHECK_DEADLOCK FALSE
