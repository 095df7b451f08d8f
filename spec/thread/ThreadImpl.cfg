SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Used = {0, 1}
INVARIANTS Match
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
