SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Program <- P5
CONSTANT Cap = 2
CONSTANT Preload = 1
CONSTANT Locking = TRUE
VIEW BaseView
INVARIANT Bounded
INVARIANT ExportsAreStates
INVARIANT OncePerEvent
INVARIANT ThreadOrder

CHECK_DEADLOCK FALSE
