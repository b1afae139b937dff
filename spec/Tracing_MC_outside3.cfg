SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Program <- P3
CONSTANT Cap = 2
CONSTANT Preload = 1
CONSTANT Locking = TRUE
VIEW View
INVARIANT Bounded
INVARIANT ExportsAreStates
INVARIANT OncePerEvent
INVARIANT ThreadOrder
INVARIANT OutsideView
CHECK_DEADLOCK FALSE
