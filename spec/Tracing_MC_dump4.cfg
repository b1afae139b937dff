SPECIFICATION Spec
CONSTANT Threads = {1, 2}
CONSTANT Program <- P4
CONSTANT Cap = 2
CONSTANT Preload = 1
CONSTANT Locking = TRUE
VIEW View
INVARIANT Dump
CHECK_DEADLOCK FALSE
