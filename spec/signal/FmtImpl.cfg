SPECIFICATION Spec
CONSTANTS
  MaxPieces = 3
  MaxSize = 9
INVARIANTS Bounded Right
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
