SPECIFICATION Spec
CONSTANTS
 MaxPreempt = 1
 Locked = FALSE
 Gated = TRUE
INVARIANT EmitHalf
CHECK_DEADLOCK FALSE
