SPECIFICATION Spec
CONSTANTS
  Alpha = {45, 61, 107, 101, 109, 32}
  MaxLen = 4
INVARIANTS Agrees Exact
CHECK_DEADLOCK FALSE
