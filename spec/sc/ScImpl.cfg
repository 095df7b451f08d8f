SPECIFICATION Spec
CONSTANTS
  Alpha = {32, 45, 43, 55, 56, 107, 66, 101, 120}
  MaxLen = 5
  LimbVals = {0, 1, 972, 1023, 15}
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
