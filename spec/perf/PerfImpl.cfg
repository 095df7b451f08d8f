SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxOps = 4
INVARIANTS Allowed Same NothingOpen
CHECK_DEADLOCK FALSE
