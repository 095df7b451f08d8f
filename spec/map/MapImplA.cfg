SPECIFICATION Spec
CONSTANTS
  Keys = {6,7,14,15,8,22}
  LoadFactor = 94
  MaxCap = 8
  UseZero = TRUE
VIEW V
INVARIANTS Refines Reachable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
