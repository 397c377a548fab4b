SPECIFICATION Spec
CONSTRAINT Done
CHECK_DEADLOCK FALSE
