SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT Tries = {0, 2}
CONSTANT Inners = {0, 2}
INVARIANT Agree
INVARIANT Inverse
INVARIANT Additive
CHECK_DEADLOCK FALSE
