SPECIFICATION Spec
CONSTANTS
 MaxPreempt = 1000
 Locked = TRUE
 Gated = TRUE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
