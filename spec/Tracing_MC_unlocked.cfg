SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Program <- P3
CONSTANT Cap = 2
CONSTANT Preload = 2
CONSTANT Locking = FALSE
VIEW BaseView
INVARIANT Bounded
INVARIANT ExportsAreStates
INVARIANT OncePerEvent
INVARIANT ThreadOrder

CHECK_DEADLOCK FALSE
