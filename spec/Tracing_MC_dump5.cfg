SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Program <- P5
CONSTANT Cap = 3
CONSTANT Preload = 2
CONSTANT Locking = TRUE
VIEW View
INVARIANT Dump
CHECK_DEADLOCK FALSE
