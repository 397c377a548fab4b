SPECIFICATION Spec
CONSTANTS
 MaxPreempt = 2
 Locked = TRUE
 Gated = TRUE
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
