SPECIFICATION MSpec
CONSTANT MaxLen = 18
VIEW V
INVARIANT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
