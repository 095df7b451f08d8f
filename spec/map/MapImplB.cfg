SPECIFICATION Spec
CONSTANTS
  Keys = {7,15,8,16,23,31}
  LoadFactor = 50
  MaxCap = 16
  UseZero = TRUE
VIEW V
INVARIANTS Refines Reachable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
