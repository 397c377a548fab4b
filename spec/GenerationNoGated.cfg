SPECIFICATION Spec
CONSTANTS
 MaxPreempt = 1
 Locked = TRUE
 Gated = FALSE
INVARIANT EmitHalf
CHECK_DEADLOCK FALSE
