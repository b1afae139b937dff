SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Program <- P6
CONSTANT Cap = 3
CONSTANT Preload = 2
CONSTANT Locking = TRUE
VIEW BaseView
INVARIANT Bounded
INVARIANT ExportsAreStates
INVARIANT OncePerEvent
INVARIANT ThreadOrder

CHECK_DEADLOCK FALSE
