SPECIFICATION Spec
CONSTANTS
  Keys = {3,11,5,19,27}
  LoadFactor = 26
  MaxCap = 32
  UseZero = FALSE
VIEW V
INVARIANTS Refines Reachable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
