SPECIFICATION Spec
CONSTANTS
  NFd = 1
  MaxEvents = 4
  MaxOps = 3
VIEW V
INVARIANT Agrees
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
